From 0f0a6dc203a15ffa8aca6d071b2585b4ba3fc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 01/62] fix: scale cp by the gas constant in PDSS_SSVol

m_cpss_R held cp in J/kmol/K instead of the nondimensional value that
every caller expects, in both temperature-polynomial volume models.
---
 src/thermo/PDSS_SSVol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermo/PDSS_SSVol.cpp b/src/thermo/PDSS_SSVol.cpp
index 6593a98..6aa2b9b 100644
--- a/src/thermo/PDSS_SSVol.cpp
+++ b/src/thermo/PDSS_SSVol.cpp
@@ -128,7 +128,7 @@ void PDSS_SSVol::setPressure(double p)
         m_hss_RT = m_h0_RT + sV_term + del_pRT * m_Vss;
         m_sss_R = m_s0_R + sV_term;
         m_gss_RT = m_hss_RT - m_sss_R;
-        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_;
+        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_ / GasConstant;
     }
 }
 
@@ -150,7 +150,7 @@ void PDSS_SSVol::setTemperature(double temp)
         m_hss_RT = m_h0_RT + sV_term + del_pRT * m_Vss;
         m_sss_R = m_s0_R + sV_term;
         m_gss_RT = m_hss_RT - m_sss_R;
-        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_;
+        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_ / GasConstant;
     }
 }
 
-- 
2.43.0


From c3441f19173e8bca9cb90a51c766ee08981af177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 02/62] fix: include the pressure term in LatticePhase partial
 molar enthalpies

Chemical potentials and the phase enthalpy contain (P - Pref)*V_k, the
partial molar enthalpies did not, so mu_k != h_k - T*s_k.
---
 src/thermo/LatticePhase.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thermo/LatticePhase.cpp b/src/thermo/LatticePhase.cpp
index 4061291..856015a 100644
--- a/src/thermo/LatticePhase.cpp
+++ b/src/thermo/LatticePhase.cpp
@@ -107,7 +107,10 @@ void LatticePhase::getChemPotentials(double* mu) const
 void LatticePhase::getPartialMolarEnthalpies(double* hbar) const
 {
     const vector<double>& _h = enthalpy_RT_ref();
-    scale(_h.begin(), _h.end(), hbar, RT());
+    double delta_p = m_Pcurrent - m_Pref;
+    for (size_t k = 0; k < m_kk; k++) {
+        hbar[k] = RT() * _h[k] + delta_p * m_speciesMolarVolume[k];
+    }
 }
 
 void LatticePhase::getPartialMolarEntropies(double* sbar) const
-- 
2.43.0


From 2459881e9cfe6691d81d45da219fc987d11af47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 03/62] fix: do not read before the table at its first mole
 fraction

std::lower_bound returns the first entry when the mole fraction equals
it, and the interpolation then used index -1.
---
 src/thermo/BinarySolutionTabulatedThermo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermo/BinarySolutionTabulatedThermo.cpp b/src/thermo/BinarySolutionTabulatedThermo.cpp
index 31b5432..9542281 100644
--- a/src/thermo/BinarySolutionTabulatedThermo.cpp
+++ b/src/thermo/BinarySolutionTabulatedThermo.cpp
@@ -165,7 +165,7 @@ double BinarySolutionTabulatedThermo::interpolate(const double x,
         c = inputData.back();
         return c;
     }
-    if (x < m_molefrac_tab.front()) {
+    if (x <= m_molefrac_tab.front()) {
         c = inputData.front();
         return c;
     }
-- 
2.43.0


From 17955fb868582061569db5b5b48e83fe855c397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 04/62] fix: use g2 for the Beta2 term in the HMWSoln
 temperature derivative

d(ln gamma)/dT evaluated the 2-2 electrolyte term with g(alpha1*sqrt(I)).
---
 src/thermo/HMWSoln.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermo/HMWSoln.cpp b/src/thermo/HMWSoln.cpp
index b00198b..f646600 100644
--- a/src/thermo/HMWSoln.cpp
+++ b/src/thermo/HMWSoln.cpp
@@ -2415,7 +2415,7 @@ void HMWSoln::s_updatePitzer_dlnMolalityActCoeff_dT() const
             if (charge(i)*charge(j) < 0.0) {
                 m_BMX_IJ_L[counterIJ] = m_Beta0MX_ij_L[counterIJ]
                                     + m_Beta1MX_ij_L[counterIJ] * m_gfunc_IJ[counterIJ]
-                                    + m_Beta2MX_ij_L[counterIJ] * m_gfunc_IJ[counterIJ];
+                                    + m_Beta2MX_ij_L[counterIJ] * m_g2func_IJ[counterIJ];
                 if (Is > 1.0E-150) {
                     m_BprimeMX_IJ_L[counterIJ] = (m_Beta1MX_ij_L[counterIJ] * m_hfunc_IJ[counterIJ]/Is +
                                              m_Beta2MX_ij_L[counterIJ] * m_h2func_IJ[counterIJ]/Is);
-- 
2.43.0


From fddd0dfebff2e2a56ff82d7d3f255355aa5e7326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 05/62] fix: apply the zeta term only to neutral species in
 HMWSoln d(ln gamma)/dT

The loop over the zeta interaction ran for every species pair, so psi
parameters were counted again as zeta. The zeroth-order expression
restricts it to neutral species.
---
 src/thermo/HMWSoln.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/thermo/HMWSoln.cpp b/src/thermo/HMWSoln.cpp
index f646600..579c2b2 100644
--- a/src/thermo/HMWSoln.cpp
+++ b/src/thermo/HMWSoln.cpp
@@ -2551,17 +2551,17 @@ void HMWSoln::s_updatePitzer_dlnMolalityActCoeff_dT() const
                 // Handle neutral j species
                 if (charge(j) == 0) {
                     sum5 += molality[j]*2.0*m_Lambda_nj_L(j,i);
-                }
 
-                // Zeta interaction term
-                for (size_t k = 1; k < m_kk; k++) {
-                    if (charge(k) < 0.0) {
-                        size_t izeta = j;
-                        size_t jzeta = i;
-                        n = izeta * m_kk * m_kk + jzeta * m_kk + k;
-                        double zeta_L = m_Psi_ijk_L[n];
-                        if (zeta_L != 0.0) {
-                            sum5 += molality[j]*molality[k]*zeta_L;
+                    // Zeta interaction term
+                    for (size_t k = 1; k < m_kk; k++) {
+                        if (charge(k) < 0.0) {
+                            size_t izeta = j;
+                            size_t jzeta = i;
+                            n = izeta * m_kk * m_kk + jzeta * m_kk + k;
+                            double zeta_L = m_Psi_ijk_L[n];
+                            if (zeta_L != 0.0) {
+                                sum5 += molality[j]*molality[k]*zeta_L;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 7b5ec965885653dd840616e9b2081bf5fd0c43e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 06/62] fix: update the density of variable pressure standard
 state phases with composition

Setting the composition of such a phase at constant temperature and
pressure (or restoring a saved state) left the density of the previous
composition in place until temperature or pressure were set again.
---
 include/cantera/thermo/VPStandardStateTP.h | 3 +++
 src/thermo/GibbsExcessVPSSTP.cpp           | 2 +-
 src/thermo/VPStandardStateTP.cpp           | 9 +++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/VPStandardStateTP.h b/include/cantera/thermo/VPStandardStateTP.h
index 4070376..ce6c98d 100644
--- a/include/cantera/thermo/VPStandardStateTP.h
+++ b/include/cantera/thermo/VPStandardStateTP.h
@@ -162,6 +162,9 @@ protected:
      */
     virtual void calcDensity();
 
+    //! Keep the density consistent with the composition
+    void compositionChanged() override;
+
     //! Updates the standard state thermodynamic functions at the current T and
     //! P of the solution.
     /*!
diff --git a/src/thermo/GibbsExcessVPSSTP.cpp b/src/thermo/GibbsExcessVPSSTP.cpp
index 8c625b1..7ebf08c 100644
--- a/src/thermo/GibbsExcessVPSSTP.cpp
+++ b/src/thermo/GibbsExcessVPSSTP.cpp
@@ -23,8 +23,8 @@ namespace Cantera
 
 void GibbsExcessVPSSTP::compositionChanged()
 {
-    Phase::compositionChanged();
     getMoleFractions(moleFractions_.data());
+    VPStandardStateTP::compositionChanged();
 }
 
 // ------------ Mechanical Properties ------------------------------
diff --git a/src/thermo/VPStandardStateTP.cpp b/src/thermo/VPStandardStateTP.cpp
index 37d7e19..1b38c3d 100644
--- a/src/thermo/VPStandardStateTP.cpp
+++ b/src/thermo/VPStandardStateTP.cpp
@@ -204,6 +204,15 @@ void VPStandardStateTP::calcDensity()
     Phase::assignDensity(dd);
 }
 
+void VPStandardStateTP::compositionChanged()
+{
+    ThermoPhase::compositionChanged();
+    if (m_Plast_ss > 0.0) {
+        // the standard states have been evaluated, so the density is defined
+        calcDensity();
+    }
+}
+
 void VPStandardStateTP::setState_TP(double t, double pres)
 {
     // A pretty tricky algorithm is needed here, due to problems involving
-- 
2.43.0


From 44d5eac6d794050b5e28c25abb85e7a4eecb47b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 07/62] fix: evaluate Arrhenius rates at the full precision of
 the given temperature

---
 interfaces/cython/cantera/reaction.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cython/cantera/reaction.pyx b/interfaces/cython/cantera/reaction.pyx
index 3c7a7ce..5558cbf 100644
--- a/interfaces/cython/cantera/reaction.pyx
+++ b/interfaces/cython/cantera/reaction.pyx
@@ -1816,7 +1816,7 @@ cdef class Arrhenius:
             self.pre_exponential_factor, self.temperature_exponent,
             self.activation_energy)
 
-    def __call__(self, float T):
+    def __call__(self, double T):
         return self.base.evalRate(np.log(T), 1/T)
 
 
-- 
2.43.0


From ac22121765d3bcc83274bf73855b7862e1d083ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:12 +0000
Subject: [PATCH 08/62] fix: refresh interface rate data when only a phase
 pressure changes

---
 include/cantera/kinetics/InterfaceRate.h | 2 ++
 src/kinetics/InterfaceRate.cpp           | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/cantera/kinetics/InterfaceRate.h b/include/cantera/kinetics/InterfaceRate.h
index 5fa1307..289e80e 100644
--- a/include/cantera/kinetics/InterfaceRate.h
+++ b/include/cantera/kinetics/InterfaceRate.h
@@ -45,6 +45,7 @@ struct InterfaceData : public BlowersMaselData
         logCoverages.resize(nSpecies, 0.);
         partialMolarEnthalpies.resize(nSpecies, 0.);
         electricPotentials.resize(nPhases, 0.);
+        pressures.resize(nPhases, NAN);
         standardChemPotentials.resize(nSpecies, 0.);
         standardConcentrations.resize(nSpecies, 0.);
         ready = true;
@@ -55,6 +56,7 @@ struct InterfaceData : public BlowersMaselData
     vector<double> coverages; //!< surface coverages
     vector<double> logCoverages; //!< logarithm of surface coverages
     vector<double> electricPotentials; //!< electric potentials of phases
+    vector<double> pressures; //!< pressures of phases, used to determine if updates are needed
     vector<double> standardChemPotentials; //!< standard state chemical potentials
     vector<double> standardConcentrations; //!< standard state concentrations
 };
diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index 9abaf0d..ec64b14 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -61,6 +61,15 @@ bool InterfaceData::update(const ThermoPhase& phase, const Kinetics& kin)
         sqrtT = sqrt(T);
         changed = true;
     }
+    for (size_t n = 0; n < kin.nPhases(); n++) {
+        // standard state properties can depend on pressure, which does not affect the
+        // counters used to detect changes of composition
+        double P = kin.thermo(n).pressure();
+        if (P != pressures[n]) {
+            pressures[n] = P;
+            changed = true;
+        }
+    }
     if (changed || mf != m_state_mf_number) {
         surf.getCoverages(coverages.data());
         for (size_t n = 0; n < coverages.size(); n++) {
-- 
2.43.0


From 5a8e1325fb7205be07c9b7e211388c820ffeb57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:12 +0000
Subject: [PATCH 09/62] fix: check element balance of reactions with third
 bodies

---
 src/kinetics/Reaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index aa88c39..37d11bb 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -702,8 +702,8 @@ bool Reaction::checkSpecies(const Kinetics& kin) const
         }
     }
 
-    if (m_third_body) {
-        return m_third_body->checkSpecies(*this, kin);
+    if (m_third_body && !m_third_body->checkSpecies(*this, kin)) {
+        return false;
     }
 
     checkBalance(kin);
-- 
2.43.0


From 1cd954b3061aaff78a1d5c359bb7c51a1147bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:17 +0000
Subject: [PATCH 10/62] fix: raise an error for reactions without a rate
 instead of crashing

---
 interfaces/cython/cantera/reaction.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/cython/cantera/reaction.pyx b/interfaces/cython/cantera/reaction.pyx
index 5558cbf..543ed06 100644
--- a/interfaces/cython/cantera/reaction.pyx
+++ b/interfaces/cython/cantera/reaction.pyx
@@ -1485,6 +1485,10 @@ cdef class Reaction:
         R = Reaction(init=False)
         R._reaction = reaction
         R.reaction = R._reaction.get()
+        if not R.reaction.rate():
+            # C++ reactions involving undeclared species are not fully set up
+            raise CanteraError("Reaction '{}' is not valid: equation contains undeclared "
+                "species or cannot be parsed.".format(pystr(R.reaction.equation())))
         R._rate = ReactionRate.wrap(R.reaction.rate())
         return R
 
-- 
2.43.0


From 997b7db9f4b524dee11bc978c398489f5fe309f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 11/62] fix: identify the generic collider of falloff reactions
 as written in the equation

---
 src/kinetics/Reaction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index 37d11bb..ec56b9c 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -396,6 +396,7 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
     }
 
     string third_body;
+    string generic_body; // generic collider as written in the equation
     size_t count = 0;
     size_t countM = 0;
     for (const auto& [name, stoich] : reactants) {
@@ -406,6 +407,9 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
                 || third_body == "(+M)"  || third_body == "(+ M)";
             count++;
             countM += generic;
+            if (generic) {
+                generic_body = name;
+            }
             if (stoich > 1 && products[third_body] > 1) {
                 count++;
                 countM += generic;
@@ -430,7 +434,7 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
         // regular elementary reaction unless the equation contains a generic third body
         if (countM) {
             // generic collider 'M' is selected as third body
-            third_body = "M";
+            third_body = generic_body;
         } else if (m_third_body) {
             // third body is defined as explicit object
             auto& effs = m_third_body->efficiencies;
-- 
2.43.0


From d334b9d818209fa1dfece9cfee9bff99c2471a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:07 +0000
Subject: [PATCH 12/62] fix: remove only whole third body colliders from
 reaction equations

---
 src/kinetics/Reaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index ec56b9c..2afd98f 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -517,7 +517,7 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
 
     // adjust reactant coefficients
     auto reac = reactants.find(third_body);
-    if (trunc(reac->second) != 1) {
+    if (reac->second != 1.) {
         reac->second -= 1.;
     } else {
         reactants.erase(reac);
@@ -525,7 +525,7 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
 
     // adjust product coefficients
     auto prod = products.find(third_body);
-    if (trunc(prod->second) != 1) {
+    if (prod->second != 1.) {
         prod->second -= 1.;
     } else {
         products.erase(prod);
-- 
2.43.0


From 7dbb244379c829f192fcbe32bccd8cf1b3d6f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:50 +0000
Subject: [PATCH 13/62] fix: use molar production rates of multi-site surface
 species in mole reactors

---
 src/zeroD/MoleReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 4859a99..afe3386 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -70,7 +70,7 @@ void MoleReactor::evalSurfaces(double* LHS, double* RHS, double* sdot)
         S->syncState();
         kin->getNetProductionRates(&m_work[0]);
         for (size_t k = 0; k < nk; k++) {
-            RHS[loc + k] = m_work[k] * wallarea / surf->size(k);
+            RHS[loc + k] = m_work[k] * wallarea;
         }
         loc += nk;
 
-- 
2.43.0


From 80af03cc5356e44666fd796f5e61f1c24ba4433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 14/62] fix: use the composition of the reactor for outflows of
 mole reactors

---
 src/zeroD/ConstPressureMoleReactor.cpp         | 3 ++-
 src/zeroD/IdealGasConstPressureMoleReactor.cpp | 5 +++--
 src/zeroD/IdealGasMoleReactor.cpp              | 5 +++--
 src/zeroD/MoleReactor.cpp                      | 3 ++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 00c6261..06d689a 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -64,6 +64,7 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
     m_thermo->restoreState(m_state);
 
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -86,7 +87,7 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
         dHdt -= outlet->massFlowRate() * m_enthalpy;
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasConstPressureMoleReactor.cpp b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
index 757a6cb..6d77cf2 100644
--- a/src/zeroD/IdealGasConstPressureMoleReactor.cpp
+++ b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
@@ -73,6 +73,7 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
 
     m_thermo->getPartialMolarEnthalpies(&m_hk[0]);
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -95,8 +96,8 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
     // add terms for outlets
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
-            // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            // flow of species out of system
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasMoleReactor.cpp b/src/zeroD/IdealGasMoleReactor.cpp
index 5586a7c..2c81e71 100644
--- a/src/zeroD/IdealGasMoleReactor.cpp
+++ b/src/zeroD/IdealGasMoleReactor.cpp
@@ -104,6 +104,7 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
 
     m_thermo->getPartialMolarIntEnergies(&m_uk[0]);
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -126,8 +127,8 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
     // add terms for outlets
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
-            // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            // flow of species out of system
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
         double mdot = outlet->massFlowRate();
         mcvdTdt -= mdot * m_pressure * m_vol / m_mass; // flow work
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index afe3386..67f33e0 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -232,6 +232,7 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
     evalSurfaces(LHS + m_nsp + m_sidx, RHS + m_nsp + m_sidx, m_sdot.data());
     // inverse molecular weights for conversion
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
     // volume equation
     RHS[1] = m_vdot;
 
@@ -258,7 +259,7 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
     for (auto outlet : m_outlet) {
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
         // energy update based on mass flow
         double mdot = outlet->massFlowRate();
-- 
2.43.0


From 9767a0f1ea5034b823aa7212657435f4b528a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 15/62] fix: reject undefined pressures in P-log rates instead
 of reading past the table

---
 include/cantera/kinetics/PlogRate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cantera/kinetics/PlogRate.h b/include/cantera/kinetics/PlogRate.h
index cef0754..0693cbb 100644
--- a/include/cantera/kinetics/PlogRate.h
+++ b/include/cantera/kinetics/PlogRate.h
@@ -115,10 +115,10 @@ public:
             }
 
             auto iter = pressures_.upper_bound(logP_);
-            AssertThrowMsg(iter != pressures_.end(), "PlogRate::updateFromStruct",
-                           "Pressure out of range: {}", logP_);
-            AssertThrowMsg(iter != pressures_.begin(), "PlogRate::updateFromStruct",
-                           "Pressure out of range: {}", logP_);
+            if (iter == pressures_.end() || iter == pressures_.begin()) {
+                throw CanteraError("PlogRate::updateFromStruct",
+                                   "Pressure out of range: {}", logP_);
+            }
 
             // upper interpolation pressure
             logP2_ = iter->first;
-- 
2.43.0


From 78d57a01fce141fa9e64a8396834dc4c0bd225e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:44 +0000
Subject: [PATCH 16/62] fix: sum the surface mass flux over all species in
 FlowReactor

---
 src/zeroD/FlowReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/FlowReactor.cpp b/src/zeroD/FlowReactor.cpp
index 5906bec..b028a63 100644
--- a/src/zeroD/FlowReactor.cpp
+++ b/src/zeroD/FlowReactor.cpp
@@ -251,7 +251,7 @@ void FlowReactor::evalDae(double time, double* y, double* ydot, double* residual
     const vector<double>& mw = m_thermo->molecularWeights();
     double sk_wk = 0;
     for (size_t i = 0; i < m_nsp; ++i) {
-        sk_wk = m_sdot[i] * mw[i];
+        sk_wk += m_sdot[i] * mw[i];
     }
     m_thermo->getPartialMolarEnthalpies(m_hk.data());
     // get net production
-- 
2.43.0


From da1f7bfb113b045c9ead389a5bce5db2232751c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:50 +0000
Subject: [PATCH 17/62] fix: translate C++ exceptions of ReactorNet methods in
 Python

---
 interfaces/cython/cantera/reactor.pxd | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/interfaces/cython/cantera/reactor.pxd b/interfaces/cython/cantera/reactor.pxd
index 3db4274..b8185c5 100644
--- a/interfaces/cython/cantera/reactor.pxd
+++ b/interfaces/cython/cantera/reactor.pxd
@@ -184,14 +184,14 @@ cdef extern from "cantera/zerodim.h" namespace "Cantera":
         void setMaxErrTestFails(int) except +translate_exception
         CxxIntegrator& integrator() except +translate_exception
         void setMaxSteps(int) except +translate_exception
-        int maxSteps()
+        int maxSteps() except +translate_exception
         cbool verbose()
         void setVerbose(cbool)
         size_t neq()
-        void getState(double*)
+        void getState(double*) except +translate_exception
         void getDerivative(int, double *) except +translate_exception
-        void setAdvanceLimits(double*)
-        cbool getAdvanceLimits(double*)
+        void setAdvanceLimits(double*) except +translate_exception
+        cbool getAdvanceLimits(double*) except +translate_exception
         string componentName(size_t) except +translate_exception
         size_t globalComponentIndex(string&, int) except +translate_exception
         void setSensitivityTolerances(double, double)
@@ -202,9 +202,9 @@ cdef extern from "cantera/zerodim.h" namespace "Cantera":
         size_t nparams()
         string sensitivityParameterName(size_t) except +translate_exception
         void setLinearSolverType(string& integratorType) except +translate_exception
-        string linearSolverType()
-        void setPreconditioner(shared_ptr[CxxSystemJacobian] preconditioner)
-        void setDerivativeSettings(CxxAnyMap&)
+        string linearSolverType() except +translate_exception
+        void setPreconditioner(shared_ptr[CxxSystemJacobian] preconditioner) except +translate_exception
+        void setDerivativeSettings(CxxAnyMap&) except +translate_exception
         CxxAnyMap solverStats() except +translate_exception
 
 cdef extern from "cantera/zeroD/ReactorDelegator.h" namespace "Cantera":
-- 
2.43.0


From a904f3f84eada598b9049ff1c26f51b5f19a4f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 18/62] fix: provide derivatives and order of solutions of the
 IDA integrator

---
 include/cantera/numerics/IdasIntegrator.h |  3 +++
 src/numerics/IdasIntegrator.cpp           | 23 +++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/cantera/numerics/IdasIntegrator.h b/include/cantera/numerics/IdasIntegrator.h
index 5560dec..abfb329 100644
--- a/include/cantera/numerics/IdasIntegrator.h
+++ b/include/cantera/numerics/IdasIntegrator.h
@@ -41,6 +41,8 @@ public:
     double step(double tout) override;
     double& solution(size_t k) override;
     double* solution() override;
+    double* derivative(double tout, int n) override;
+    int lastOrder() const override;
     int nEquations() const override {
         return static_cast<int>(m_neq);
     }
@@ -114,6 +116,7 @@ private:
 
     N_Vector m_y = nullptr; //!< The current system state
     N_Vector m_ydot = nullptr; //!< The time derivatives of the system state
+    N_Vector m_dky = nullptr; //!< Derivatives returned by derivative()
     N_Vector m_abstol = nullptr; //!< Absolute tolerances for each state variable
     string m_type = "DENSE"; //!< The linear solver type. @see setLinearSolverType()
 
diff --git a/src/numerics/IdasIntegrator.cpp b/src/numerics/IdasIntegrator.cpp
index 9f38317..2aa2202 100644
--- a/src/numerics/IdasIntegrator.cpp
+++ b/src/numerics/IdasIntegrator.cpp
@@ -86,6 +86,9 @@ IdasIntegrator::~IdasIntegrator()
     if (m_ydot) {
         N_VDestroy_Serial(m_ydot);
     }
+    if (m_dky) {
+        N_VDestroy_Serial(m_dky);
+    }
     if (m_abstol) {
         N_VDestroy_Serial(m_abstol);
     }
@@ -104,6 +107,20 @@ double* IdasIntegrator::solution()
     return NV_DATA_S(m_y);
 }
 
+double* IdasIntegrator::derivative(double tout, int n)
+{
+    int flag = IDAGetDky(m_ida_mem, tout, n, m_dky);
+    checkError(flag, "derivative", "IDAGetDky");
+    return NV_DATA_S(m_dky);
+}
+
+int IdasIntegrator::lastOrder() const
+{
+    int ord;
+    IDAGetLastOrder(m_ida_mem, &ord);
+    return ord;
+}
+
 void IdasIntegrator::setTolerances(double reltol, size_t n, double* abstol)
 {
     m_itol = IDA_SV;
@@ -250,6 +267,12 @@ void IdasIntegrator::initialize(double t0, FuncEval& func)
     m_ydot = newNVector(m_neq, m_sundials_ctx);
     N_VConst(0.0, m_ydot);
 
+    if (m_dky) {
+        N_VDestroy_Serial(m_dky); // free derivative vector if already allocated
+    }
+    m_dky = newNVector(m_neq, m_sundials_ctx);
+    N_VConst(0.0, m_dky);
+
     // check abs tolerance array size
     if (m_itol == IDA_SV && m_nabs < m_neq) {
         throw CanteraError("IdasIntegrator::initialize",
-- 
2.43.0


From 221f31e9cb431b455b9226d0f21ecf4bcdafd74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:15 +0000
Subject: [PATCH 19/62] fix: clear production rates when chemistry is disabled
 in a reactor

---
 include/cantera/zeroD/Reactor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cantera/zeroD/Reactor.h b/include/cantera/zeroD/Reactor.h
index 5266687..891d4b3 100644
--- a/include/cantera/zeroD/Reactor.h
+++ b/include/cantera/zeroD/Reactor.h
@@ -68,6 +68,10 @@ public:
 
     void setChemistry(bool cflag=true) override {
         m_chem = cflag;
+        if (!m_chem) {
+            // production rates are only updated while chemistry is enabled
+            m_wdot.assign(m_wdot.size(), 0.0);
+        }
     }
 
     //! Returns `true` if changes in the reactor composition due to chemical reactions
-- 
2.43.0


From 705abc529b973f32b73e15fb7e33932215a5dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:41 +0000
Subject: [PATCH 20/62] fix: conserve elements when a phase vanishes in
 MultiPhaseEquil

The reaction steps of minor species changed the moles of the components but not those of
the minor species themselves; with ill-conditioned steps (a vanishing solution phase)
the solver converged to a composition with different element abundances.
---
 src/equil/MultiPhaseEquil.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/equil/MultiPhaseEquil.cpp b/src/equil/MultiPhaseEquil.cpp
index 0cdf7a2..d50028b 100644
--- a/src/equil/MultiPhaseEquil.cpp
+++ b/src/equil/MultiPhaseEquil.cpp
@@ -8,6 +8,7 @@
 #include "cantera/equil/MultiPhaseEquil.h"
 #include "cantera/thermo/MolalityVPSSTP.h"
 #include "cantera/base/stringUtils.h"
+#include "cantera/base/global.h"
 
 #include <cstdio>
 #include <numeric>
@@ -426,6 +427,16 @@ double MultiPhaseEquil::stepComposition(int loglevel)
 {
     m_iter++;
     double grad0 = computeReactionSteps(m_dxi);
+    const double MAJOR_THRESHOLD = 1.0e-12;
+
+    // The moles of minor species are updated separately (see step()), so the moles of
+    // the components can only change by as much as these moles can change.
+    for (size_t j = 0; j < nFree(); j++) {
+        size_t k = m_order[j + m_nel];
+        if (m_dsoln[k] == 1 && !(m_moles[k] > MAJOR_THRESHOLD)) {
+            m_dxi[j] = clip(m_dxi[j], -fabs(m_moles[k]), 10.0 * fabs(m_moles[k]));
+        }
+    }
 
     // compute the mole fraction changes.
     if (nFree()) {
@@ -437,7 +448,6 @@ double MultiPhaseEquil::stepComposition(int loglevel)
 
     // scale omega to keep the major species non-negative
     double FCTR = 0.99;
-    const double MAJOR_THRESHOLD = 1.0e-12;
     double omegamax = 1.0;
     for (size_t ik = 0; ik < m_nsp; ik++) {
         size_t k = m_order[ik];
-- 
2.43.0


From 7d4f78ba3599c0d6ce5fd517dc7aeccef9681580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:12 +0000
Subject: [PATCH 21/62] fix: do not report convergence of an HP or SP
 equilibrium at a phase change

Where the enthalpy or entropy jumps, the bracket slope used to scale the error diverges,
and the VCS solver returned with a value that is not the requested one.
---
 src/equil/vcs_MultiPhaseEquil.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/equil/vcs_MultiPhaseEquil.cpp b/src/equil/vcs_MultiPhaseEquil.cpp
index d1db46f..494d9eb 100644
--- a/src/equil/vcs_MultiPhaseEquil.cpp
+++ b/src/equil/vcs_MultiPhaseEquil.cpp
@@ -206,7 +206,10 @@ int vcs_MultiPhaseEquil::equilibrate_HP(double Htarget, int XY, double Tlow,
                       Herr, cpb, HConvErr);
             }
 
-            if (HConvErr < err) { // || dTa < 1.0e-4) {
+            // The scale 'cpb' diverges where the enthalpy jumps at the temperature of a
+            // phase change, which is not convergence to the requested enthalpy
+            double Hscale = std::max(fabs(Htarget), fabs(m_mix->cp()) * Tnow);
+            if (HConvErr < err && fabs(Herr) < 1e-5 * Hscale) {
                 if (printLvl > 0) {
                     plogf("   equilibrate_HP: CONVERGENCE: Hfinal  = %g Tfinal = %g, Its = %d \n",
                           Hnow, Tnow, n);
@@ -329,7 +332,10 @@ int vcs_MultiPhaseEquil::equilibrate_SP(double Starget, double Tlow, double Thig
                       Serr, cpb, SConvErr);
             }
 
-            if (SConvErr < err) { // || dTa < 1.0e-4) {
+            // The scale 'cpb' diverges where the entropy jumps at the temperature of a
+            // phase change, which is not convergence to the requested entropy
+            double Sscale = std::max(fabs(Starget), fabs(m_mix->cp()));
+            if (SConvErr < err && fabs(Serr) < 1e-5 * Sscale) {
                 if (printLvl > 0) {
                     plogf("   equilibrate_SP: CONVERGENCE: Sfinal  = %g Tfinal = %g, Its = %d \n",
                           Snow, Tnow, n);
-- 
2.43.0


From 6cc387ee69f32222b32afa4ce600736deff3eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:34 +0000
Subject: [PATCH 22/62] fix: evaluate multicomponent transport properties
 independently of previous evaluations

MultiTransport::getSpeciesFluxes used mole fractions of an earlier state if no
temperature gradient was present, and replaced self-diffusion coefficients
needed by the L matrix; the binary diffusion coefficients depended on whether
the L matrix had been evaluated. The Python wrapper returned the transpose of
the multicomponent diffusion coefficient matrix.
---
 include/cantera/transport/MultiTransport.h |  5 +++++
 interfaces/cython/cantera/transport.pyx    |  3 ++-
 src/transport/MultiTransport.cpp           | 25 ++++++++++++----------
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/cantera/transport/MultiTransport.h b/include/cantera/transport/MultiTransport.h
index 937813b..cf338ed 100644
--- a/include/cantera/transport/MultiTransport.h
+++ b/include/cantera/transport/MultiTransport.h
@@ -119,6 +119,11 @@ protected:
 
     double m_thermal_tlast;
 
+    //! Binary diffusion coefficients at unit pressure used to evaluate the L matrix.
+    //! Differs from #m_bdiff in the self-diffusion coefficients, which are
+    //! calculated from the species viscosities.
+    DenseMatrix m_bdiff_L;
+
     //! Dense matrix for astar
     DenseMatrix m_astar;
 
diff --git a/interfaces/cython/cantera/transport.pyx b/interfaces/cython/cantera/transport.pyx
index e425c85..2f9d6d0 100644
--- a/interfaces/cython/cantera/transport.pyx
+++ b/interfaces/cython/cantera/transport.pyx
@@ -20,7 +20,8 @@ cdef np.ndarray get_transport_1d(Transport tran, transportMethod1d method):
 
 cdef np.ndarray get_transport_2d(Transport tran, transportMethod2d method):
     cdef size_t kk = tran.thermo.nSpecies()
-    cdef np.ndarray[np.double_t, ndim=2] data = np.empty((kk, kk))
+    # the transport managers use column-major ordering
+    cdef np.ndarray[np.double_t, ndim=2] data = np.empty((kk, kk), order="F")
     method(tran.transport, kk, &data[0,0])
     return data
 
diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index fb98f4e..7582e95 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -175,8 +175,9 @@ void MultiTransport::getSpeciesFluxes(size_t ndim, const double* const grad_T,
                                       size_t ldx, const double* const grad_X,
                                       size_t ldf, double* const fluxes)
 {
-    // update the binary diffusion coefficients if necessary
+    // update the mole fractions and the binary diffusion coefficients if necessary
     update_T();
+    update_C();
     updateDiff_T();
 
     // If any component of grad_T is non-zero, then get the
@@ -281,10 +282,10 @@ void MultiTransport::getMassFluxes(const double* state1, const double* state2,
         x3[n] = 0.5*(x1[n] + x2[n]);
     }
     m_thermo->setState_TPX(t, p, x3);
-    m_thermo->getMoleFractions(m_molefracs.data());
 
-    // update the binary diffusion coefficients if necessary
+    // update the mole fractions and the binary diffusion coefficients if necessary
     update_T();
+    update_C();
     updateDiff_T();
 
     // If there is a temperature gradient, then get the
@@ -455,9 +456,11 @@ void MultiTransport::updateThermal_T()
         m_rotrelax[k] = std::max(1.0,m_zrot[k]) * m_frot_298[k]/Frot(tr, sqtr);
     }
 
+    // self-diffusion coefficients that are consistent with the viscosities
+    m_bdiff_L = m_bdiff;
     double c = 1.2*GasConstant*m_temp;
     for (size_t k = 0; k < m_nsp; k++) {
-        m_bdiff(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
+        m_bdiff_L(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
     }
 
     // Calculate the internal heat capacities by subtracting off the translational contributions
@@ -492,15 +495,15 @@ void MultiTransport::eval_L0000(const double* const x)
     for (size_t i = 0; i < m_nsp; i++) {
         // subtract-off the k=i term to account for the first delta
         // function in Eq. (12.121)
-        sum = -x[i]/m_bdiff(i,i);
+        sum = -x[i]/m_bdiff_L(i,i);
         for (size_t k = 0; k < m_nsp; k++) {
-            sum += x[k]/m_bdiff(i,k);
+            sum += x[k]/m_bdiff_L(i,k);
         }
 
         sum /= m_mw[i];
         for (size_t j = 0; j != m_nsp; ++j) {
             m_Lmatrix(i,j) = prefactor * x[j]
-                             * (m_mw[j] * sum + x[i]/m_bdiff(i,j));
+                             * (m_mw[j] * sum + x[i]/m_bdiff_L(i,j));
         }
         // diagonal term is zero
         m_Lmatrix(i,i) = 0.0;
@@ -517,7 +520,7 @@ void MultiTransport::eval_L0010(const double* const x)
         for (size_t i = 0; i < m_nsp; i++) {
             m_Lmatrix(i,j + m_nsp) = - prefactor * x[i] * xj * m_mw[i] *
                                      (1.2 * m_cstar(j,i) - 1.0) /
-                                     ((wj + m_mw[i]) * m_bdiff(j,i));
+                                     ((wj + m_mw[i]) * m_bdiff_L(j,i));
 
             // the next term is independent of "j";
             // need to do it for the "j,j" term
@@ -553,7 +556,7 @@ void MultiTransport::eval_L1010(const double* x)
         double sum = 0.0;
         for (size_t i = 0; i < m_nsp; i++) {
             double sumwij = m_mw[i] + m_mw[j];
-            double term1 = m_bdiff(i,j) * sumwij*sumwij;
+            double term1 = m_bdiff_L(i,j) * sumwij*sumwij;
             double term2 = fourmj*m_astar(i,j)*(1.0 + fiveover3pi*
                 (constant3 + (m_crot[i]/m_rotrelax[i]))); //  see Eq. (12.125)
 
@@ -581,7 +584,7 @@ void MultiTransport::eval_L1001(const double* x)
             for (size_t i = 0; i < m_nsp; i++) {
                 // see Eq. (12.127)
                 m_Lmatrix(i+m_nsp,j+2*m_nsp) = constant * m_astar(j,i) * x[i] /
-                                          ((m_mw[j] + m_mw[i]) * m_bdiff(j,i));
+                                          ((m_mw[j] + m_mw[i]) * m_bdiff_L(j,i));
                 sum += m_Lmatrix(i+m_nsp,j+2*m_nsp);
             }
             m_Lmatrix(j+m_nsp,j+2*m_nsp) += sum;
@@ -631,7 +634,7 @@ void MultiTransport::eval_L0101(const double* x)
             double sum = 0.0;
             for (size_t k = 0; k < m_nsp; k++) {
                 // see Eq. (12.131)
-                double diff_int = m_bdiff(i,k);
+                double diff_int = m_bdiff_L(i,k);
                 m_Lmatrix(k+2*m_nsp,i+2*m_nsp) = 0.0;
                 sum += x[k]/diff_int;
                 if (k != i) {
-- 
2.43.0


From a4ea1ce4351e2a6f689ee87143b32b0e32ea74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:42 +0000
Subject: [PATCH 23/62] fix: update gas transport managers when species are
 added

Arrays were accessed before they were resized, and cached properties for the
same temperature were kept.
---
 src/transport/GasTransport.cpp             | 1 +
 src/transport/HighPressureGasTransport.cpp | 4 +++-
 src/transport/IonGasTransport.cpp          | 5 +++++
 src/transport/MixTransport.cpp             | 1 +
 src/transport/MultiTransport.cpp           | 7 ++++---
 5 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/transport/GasTransport.cpp b/src/transport/GasTransport.cpp
index 02e0f70..dc245cc 100644
--- a/src/transport/GasTransport.cpp
+++ b/src/transport/GasTransport.cpp
@@ -30,6 +30,7 @@ void GasTransport::update_T()
     if (m_thermo->nSpecies() != m_nsp) {
         // Rebuild data structures if number of species has changed
         init(m_thermo, m_mode);
+        invalidateCache();
     }
 
     double T = m_thermo->temperature();
diff --git a/src/transport/HighPressureGasTransport.cpp b/src/transport/HighPressureGasTransport.cpp
index 998e077..e355f22 100644
--- a/src/transport/HighPressureGasTransport.cpp
+++ b/src/transport/HighPressureGasTransport.cpp
@@ -218,8 +218,8 @@ void HighPressureGasTransportBase::updateCorrectionFactors() {
 
 void HighPressureGasTransportBase::getBinaryDiffCoeffs(const size_t ld, double* const d)
 {
-    update_C();
     update_T();
+    update_C();
     updateCorrectionFactors();
     // If necessary, evaluate the binary diffusion coefficients from the polynomial
     // fits
@@ -572,6 +572,7 @@ double HighPressureGasTransport::viscosity()
 
 void HighPressureGasTransport::computeMixtureParameters()
 {
+    update_T();
     double Tc_mix = 0.0;
     double Pc_mix_n = 0.0; // Numerator in equation 9-5.19
     double Pc_mix_d = 0.0; // Denominator in equation 9-5.19
@@ -924,6 +925,7 @@ double ChungHighPressureGasTransport::viscosity()
 
 void ChungHighPressureGasTransport::computeMixtureParameters()
 {
+    update_T();
     // Here we use the combining rules defined on page 9.25.
     // We have ASSUMED that the binary interaction parameters are unity for all species
     // as was done in the Chung method.
diff --git a/src/transport/IonGasTransport.cpp b/src/transport/IonGasTransport.cpp
index 0f54a42..0ec826a 100644
--- a/src/transport/IonGasTransport.cpp
+++ b/src/transport/IonGasTransport.cpp
@@ -24,6 +24,10 @@ void IonGasTransport::init(ThermoPhase* thermo, int mode)
                            "mode = CK_Mode, which is an outdated lower-order fit.");
     }
     // make a local copy of species charge
+    m_speciesCharge.clear();
+    m_kIon.clear();
+    m_kNeutral.clear();
+    m_kElectron = npos;
     for (size_t k = 0; k < m_nsp; k++) {
         m_speciesCharge.push_back(m_thermo->charge(k));
     }
@@ -137,6 +141,7 @@ double IonGasTransport::thermalConductivity()
 
 double IonGasTransport::electricalConductivity()
 {
+    update_T();
     vector<double> mobi(m_nsp);
     getMobilities(&mobi[0]);
     double p = m_thermo->pressure();
diff --git a/src/transport/MixTransport.cpp b/src/transport/MixTransport.cpp
index 0aeafff..45b5c80 100644
--- a/src/transport/MixTransport.cpp
+++ b/src/transport/MixTransport.cpp
@@ -22,6 +22,7 @@ void MixTransport::init(ThermoPhase* thermo, int mode)
 
 void MixTransport::getMobilities(double* const mobil)
 {
+    update_T();
     getMixDiffCoeffs(m_spwork.data());
     double c1 = ElectronCharge / (Boltzmann * m_temp);
     for (size_t k = 0; k < m_nsp; k++) {
diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index 7582e95..0534dee 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -117,6 +117,7 @@ double MultiTransport::pressure_ig()
 void MultiTransport::solveLMatrixEquation()
 {
     // if T has changed, update the temperature-dependent properties.
+    update_T();
     updateThermal_T();
     update_C();
     if (m_lmatrix_soln_ok) {
@@ -361,13 +362,13 @@ void MultiTransport::getMultiDiffCoeffs(const size_t ld, double* const d)
 {
     double p = pressure_ig();
 
-    // update the mole fractions
-    update_C();
-
     // update the binary diffusion coefficients
     update_T();
     updateThermal_T();
 
+    // update the mole fractions
+    update_C();
+
     // evaluate L0000 if the temperature or concentrations have
     // changed since it was last evaluated.
     if (!m_l0000_ok) {
-- 
2.43.0


From cf31506cc44ee22a5be1a7a242702115359a75fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:42 +0000
Subject: [PATCH 24/62] fix: keep interaction parameters of cubic equations of
 state when species are added

Array2D::resize did not preserve the position of the existing entries.
---
 src/base/Array.cpp              | 10 ++++++++++
 src/thermo/RedlichKwongMFTP.cpp | 18 +++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/base/Array.cpp b/src/base/Array.cpp
index 9d0c346..8238994 100644
--- a/src/base/Array.cpp
+++ b/src/base/Array.cpp
@@ -46,6 +46,16 @@ Array2D& Array2D::operator=(const Array2D& y)
 
 void Array2D::resize(size_t n, size_t m, double v)
 {
+    if (n != m_nrows && !m_data.empty()) {
+        // keep the existing entries at their positions
+        vector<double> data(n*m, v);
+        for (size_t j = 0; j < std::min(m, m_ncols); j++) {
+            for (size_t i = 0; i < std::min(n, m_nrows); i++) {
+                data[n*j + i] = m_data[m_nrows*j + i];
+            }
+        }
+        m_data = std::move(data);
+    }
     m_nrows = n;
     m_ncols = m;
     m_data.resize(n*m, v);
diff --git a/src/thermo/RedlichKwongMFTP.cpp b/src/thermo/RedlichKwongMFTP.cpp
index b3e05de..845c907 100644
--- a/src/thermo/RedlichKwongMFTP.cpp
+++ b/src/thermo/RedlichKwongMFTP.cpp
@@ -354,12 +354,24 @@ bool RedlichKwongMFTP::addSpecies(shared_ptr<Species> spec)
 {
     bool added = MixtureFugacityTP::addSpecies(spec);
     if (added) {
-        a_vec_Curr_.resize(m_kk * m_kk, 0.0);
-
         // Initialize a_vec and b_vec to NaN, to screen for species with
         //     pureFluidParameters which are undefined in the input file:
         b_vec_Curr_.push_back(NAN);
-        a_coeff_vec.resize(2, m_kk * m_kk, NAN);
+
+        // The position of the coefficients depends on the number of species
+        vector<double> a_vec(m_kk * m_kk, 0.0);
+        Array2D a_coeff(2, m_kk * m_kk, NAN);
+        for (size_t i = 0; i < m_kk - 1; i++) {
+            for (size_t j = 0; j < m_kk - 1; j++) {
+                size_t from = i + (m_kk - 1) * j;
+                size_t to = i + m_kk * j;
+                a_vec[to] = a_vec_Curr_[from];
+                a_coeff(0, to) = a_coeff_vec(0, from);
+                a_coeff(1, to) = a_coeff_vec(1, from);
+            }
+        }
+        a_vec_Curr_ = std::move(a_vec);
+        a_coeff_vec = a_coeff;
 
         m_pp.push_back(0.0);
         m_coeffSource.push_back(CoeffSource::EoS);
-- 
2.43.0


From 869d47ce82ff348253ebe1528affe7d5132a313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:42 +0000
Subject: [PATCH 25/62] fix: report missing PDSS object for species added to a
 VPSS phase

---
 src/thermo/VPStandardStateTP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/VPStandardStateTP.cpp b/src/thermo/VPStandardStateTP.cpp
index 1b38c3d..32dd686 100644
--- a/src/thermo/VPStandardStateTP.cpp
+++ b/src/thermo/VPStandardStateTP.cpp
@@ -182,6 +182,7 @@ bool VPStandardStateTP::addSpecies(shared_ptr<Species> spec)
     m_gss_RT.push_back(0.0);
     m_sss_R.push_back(0.0);
     m_Vss.push_back(0.0);
+    m_PDSS_storage.resize(m_kk);
     return true;
 }
 
-- 
2.43.0


From 0052734f1754f4624b23f58612eda351db6571fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 26/62] fix: write the number of sites of surface species under
 the key it is read from

---
 src/thermo/Species.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermo/Species.cpp b/src/thermo/Species.cpp
index 1cb9b75..ade4f2d 100644
--- a/src/thermo/Species.cpp
+++ b/src/thermo/Species.cpp
@@ -79,9 +79,9 @@ AnyMap Species::parameters(const ThermoPhase* phase, bool withInput) const
     }
 
     if (size != 1) {
-        speciesNode["size"] = size;
+        speciesNode["sites"] = size;
     } else {
-        speciesNode.exclude("size");
+        speciesNode.exclude("sites");
     }
 
     if (thermo) {
-- 
2.43.0


From 6c4e1157dd85b3bed9e044b101fc787b0d51083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 27/62] fix: write an explicitly given default reference
 pressure in output units

---
 src/thermo/SpeciesThermoInterpType.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/thermo/SpeciesThermoInterpType.cpp b/src/thermo/SpeciesThermoInterpType.cpp
index 474b678..316f9fd 100644
--- a/src/thermo/SpeciesThermoInterpType.cpp
+++ b/src/thermo/SpeciesThermoInterpType.cpp
@@ -57,7 +57,9 @@ AnyMap SpeciesThermoInterpType::parameters(bool withInput) const
 
 void SpeciesThermoInterpType::getParameters(AnyMap& thermo) const
 {
-    if (m_Pref != OneAtm && reportType() != 0) {
+    if ((m_Pref != OneAtm || m_input.hasKey("reference-pressure"))
+        && reportType() != 0)
+    {
         thermo["reference-pressure"].setQuantity(m_Pref, "Pa");
     }
 }
-- 
2.43.0


From 8e5260cd1f5a4003bb09eeae82782753e5ef66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 28/62] fix: quote strings that look like booleans in YAML
 output

---
 src/base/AnyMap.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index 72f4526..f6d4402 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -304,8 +304,9 @@ YAML::Emitter& operator<<(YAML::Emitter& out, const AnyMap& rhs)
                 valueStr = formatDouble(value.asDouble(), getPrecision(value));
             } else if (value.is<string>()) {
                 valueStr = value.asString();
-                if (isFloat(valueStr)) {
-                    // Quote strings that look like numbers to preserve their type
+                if (isFloat(valueStr) || isBool(valueStr)) {
+                    // Quote strings that look like numbers or booleans to preserve
+                    // their type
                     needsQuotes = true;
                 }
             } else if (value.is<long int>()) {
@@ -351,7 +352,7 @@ YAML::Emitter& operator<<(YAML::Emitter& out, const AnyMap& rhs)
 //! Write YAML strings spanning multiple lines if input includes endline '\n'
 void emitString(YAML::Emitter& out, const string& str0) {
     if (str0.rfind('\n') == string::npos) {
-        if (isFloat(str0)) {
+        if (isFloat(str0) || isBool(str0)) {
             out << YAML::SingleQuoted;
         }
         out << str0;
@@ -401,7 +402,7 @@ void emitFlowVector(YAML::Emitter& out, const vector<string>& v)
             out << YAML::Newline;
             width = 15;
         }
-        if (isFloat(x)) {
+        if (isFloat(x) || isBool(x)) {
             out << SingleQuoted;
             width += 2;
         }
-- 
2.43.0


From e08616cb8b8fecd1e4d25bce0f2a860a6d7f2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 29/62] fix: HMW phases: default temperature model, psi for
 ions of charge two

---
 src/thermo/HMWSoln.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thermo/HMWSoln.cpp b/src/thermo/HMWSoln.cpp
index 579c2b2..fc6039d 100644
--- a/src/thermo/HMWSoln.cpp
+++ b/src/thermo/HMWSoln.cpp
@@ -386,7 +386,7 @@ void HMWSoln::setPsi(const string& sp1, const string& sp2,
     }
 
     if (!charge(k1) || !charge(k2) || !charge(k3) ||
-        std::abs(sign(charge(k1) + sign(charge(k2)) + sign(charge(k3)))) != 1) {
+        std::abs(sign(charge(k1)) + sign(charge(k2)) + sign(charge(k3))) != 1) {
         throw CanteraError("HMWSoln::setPsi", "All species must be ions and"
             " must include at least one cation and one anion, but given species"
             " (charges) were: {} ({}), {} ({}), and {} ({}).",
@@ -551,7 +551,9 @@ void HMWSoln::initThermo()
     MolalityVPSSTP::initThermo();
     if (m_input.hasKey("activity-data")) {
         auto& actData = m_input["activity-data"].as<AnyMap>();
-        setPitzerTempModel(actData["temperature-model"].asString());
+        if (actData.hasKey("temperature-model")) {
+            setPitzerTempModel(actData["temperature-model"].asString());
+        }
         initLengths();
         size_t nCoeffs = 1;
         if (m_formPitzerTemp == PITZER_TEMP_LINEAR) {
-- 
2.43.0


From a65e66dab014646d8f29898f76c8954ba68e7fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:11 +0000
Subject: [PATCH 30/62] fix: account for pressure when caching bulk reaction
 rates

---
 include/cantera/kinetics/BlowersMaselRate.h |  1 +
 src/kinetics/BlowersMaselRate.cpp           |  6 ++++++
 src/kinetics/BulkKinetics.cpp               | 10 ++++++++--
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/cantera/kinetics/BlowersMaselRate.h b/include/cantera/kinetics/BlowersMaselRate.h
index d10db0b..de4eff1 100644
--- a/include/cantera/kinetics/BlowersMaselRate.h
+++ b/include/cantera/kinetics/BlowersMaselRate.h
@@ -31,6 +31,7 @@ struct BlowersMaselData : public ReactionData
 
     bool ready = false; //!< boolean indicating whether vectors are accessible
     double density = NAN; //!< used to determine if updates are needed
+    double pressure = NAN; //!< used to determine if updates are needed
     vector<double> partialMolarEnthalpies; //!< partial molar enthalpies
 
 protected:
diff --git a/src/kinetics/BlowersMaselRate.cpp b/src/kinetics/BlowersMaselRate.cpp
index c51d8d7..3c60686 100644
--- a/src/kinetics/BlowersMaselRate.cpp
+++ b/src/kinetics/BlowersMaselRate.cpp
@@ -22,11 +22,17 @@ bool BlowersMaselData::update(const ThermoPhase& phase, const Kinetics& kin)
     double rho = phase.density();
     int mf = phase.stateMFNumber();
     double T = phase.temperature();
+    double P = phase.pressure();
     bool changed = false;
     if (T != temperature) {
         ReactionData::update(T);
         changed = true;
     }
+    if (P != pressure) {
+        // enthalpies of incompressible phases change with pressure
+        pressure = P;
+        changed = true;
+    }
     if (changed || rho != density || mf != m_state_mf_number) {
         density = rho;
         m_state_mf_number = mf;
diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 0b6ce9b..b887287 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -460,9 +460,15 @@ void BulkKinetics::updateROP()
     CachedScalar last = m_cache.getScalar(cacheId);
     double T = thermo().temperature();
     double rho = thermo().density();
+    double P = thermo().pressure();
     int statenum = thermo().stateMFNumber();
 
-    if (last.state1 != T || last.state2 != rho) {
+    // The density of an incompressible phase does not indicate changes in pressure,
+    // which still affect its standard state properties
+    bool pressureChanged = last.value != P;
+    last.value = P;
+
+    if (last.state1 != T || last.state2 != rho || pressureChanged) {
         // Update properties that are independent of the composition
         thermo().getStandardChemPotentials(m_grt.data());
         fill(m_delta_gibbs0.begin(), m_delta_gibbs0.end(), 0.0);
@@ -483,7 +489,7 @@ void BulkKinetics::updateROP()
         }
     }
 
-    if (!last.validate(T, rho, statenum)) {
+    if (!last.validate(T, rho, statenum) || pressureChanged) {
         // Update terms dependent on species concentrations and temperature
         thermo().getActivityConcentrations(m_act_conc.data());
         thermo().getConcentrations(m_phys_conc.data());
-- 
2.43.0


From 7bc63cb25ea1efd21c7ec73ffd8963f8e5781cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 31/62] fix: InterfaceKinetics::getDerivativeSettings reported
 swapped settings

---
 src/kinetics/InterfaceKinetics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/InterfaceKinetics.cpp b/src/kinetics/InterfaceKinetics.cpp
index 3d6c3e1..9337b9e 100644
--- a/src/kinetics/InterfaceKinetics.cpp
+++ b/src/kinetics/InterfaceKinetics.cpp
@@ -657,8 +657,8 @@ void InterfaceKinetics::setDerivativeSettings(const AnyMap& settings)
 
 void InterfaceKinetics::getDerivativeSettings(AnyMap& settings) const
 {
-    settings["skip-coverage-dependence"] = m_jac_skip_electrochemistry;
-    settings["skip-electrochemistry"] = m_jac_skip_coverage_dependence;
+    settings["skip-coverage-dependence"] = m_jac_skip_coverage_dependence;
+    settings["skip-electrochemistry"] = m_jac_skip_electrochemistry;
     settings["rtol-delta"] = m_jac_rtol_delta;
 }
 
-- 
2.43.0


From 3d06c2b5fdfcb39a819652a9add4a9b1903346f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 32/62] fix: dense derivative matrices without nonzero entries
 have full shape

---
 interfaces/cython/cantera/kinetics.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cython/cantera/kinetics.pyx b/interfaces/cython/cantera/kinetics.pyx
index 90ed837..e5e081b 100644
--- a/interfaces/cython/cantera/kinetics.pyx
+++ b/interfaces/cython/cantera/kinetics.pyx
@@ -34,7 +34,7 @@ cdef np.ndarray get_reaction_array(Kinetics kin, kineticsMethod1d method):
 cdef np.ndarray get_dense(CxxSparseMatrix& smat):
     cdef size_t length = smat.nonZeros()
     if length == 0:
-        return np.zeros((smat.rows(), 0))
+        return np.zeros((smat.rows(), smat.cols()))
 
     # index/value triplets
     cdef np.ndarray[int, ndim=1, mode="c"] rows = np.empty(length, dtype=c_int)
-- 
2.43.0


From eba0bb3779c51e718714e442ba37b78e646c5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 33/62] fix: sticking rates with coverage dependence are
 composition dependent

---
 include/cantera/kinetics/InterfaceRate.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cantera/kinetics/InterfaceRate.h b/include/cantera/kinetics/InterfaceRate.h
index 289e80e..752e73b 100644
--- a/include/cantera/kinetics/InterfaceRate.h
+++ b/include/cantera/kinetics/InterfaceRate.h
@@ -584,6 +584,13 @@ public:
     double activationEnergy() const override {
         return RateType::activationEnergy() + m_ecov * GasConstant;
     }
+
+    void addCoverageDependence(const string& sp, double a, double m,
+                               const vector<double>& e) override
+    {
+        InterfaceRateBase::addCoverageDependence(sp, a, m, e);
+        RateType::setCompositionDependence(true);
+    }
 };
 
 //! Arrhenius-type interface sticking rate specifications
-- 
2.43.0


From 9f40570dc3d7148516a6172066f79d90c232f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:09 +0000
Subject: [PATCH 34/62] fix: derivatives of reactions with zero-order reactants
 that are absent

---
 include/cantera/kinetics/StoichManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cantera/kinetics/StoichManager.h b/include/cantera/kinetics/StoichManager.h
index 0f930a3..7a68c58 100644
--- a/include/cantera/kinetics/StoichManager.h
+++ b/include/cantera/kinetics/StoichManager.h
@@ -410,7 +410,7 @@ public:
             if (S[m_ic[i]] > 0. && order_i != 0.) {
                 prod *= order_i * std::pow(S[m_ic[i]], order_i - 1);
                 for (size_t j = 0; j < m_n; j++) {
-                    if (i != j) {
+                    if (i != j && m_order[j] != 0.) {
                         if (S[m_ic[j]] > 0) {
                             prod *= std::pow(S[m_ic[j]], m_order[j]);
                         } else {
-- 
2.43.0


From bc11619e2af6e052c8f5e4bc6cd57aaaaa1c2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:06 +0000
Subject: [PATCH 35/62] fix: reset of the heat of formation of constant-cp
 species

---
 src/thermo/ConstCpPoly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/ConstCpPoly.cpp b/src/thermo/ConstCpPoly.cpp
index 04f3c54..38156dd 100644
--- a/src/thermo/ConstCpPoly.cpp
+++ b/src/thermo/ConstCpPoly.cpp
@@ -33,6 +33,7 @@ void ConstCpPoly::setParameters(double t0, double h0, double s0, double cp0)
     m_cp0_R = cp0 / GasConstant;
     m_h0_R = h0 / GasConstant;
     m_s0_R = s0 / GasConstant;
+    m_h0_R_orig = m_h0_R;
 }
 
 void ConstCpPoly::updateProperties(const double* tt,
-- 
2.43.0


From c1f6d44c2e867ba012bb5f92045ab0a22f086e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:07 +0000
Subject: [PATCH 36/62] fix: surface concentrations when species occupy several
 sites

---
 include/cantera/thermo/SurfPhase.h |  4 ++++
 src/thermo/SurfPhase.cpp           | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/cantera/thermo/SurfPhase.h b/include/cantera/thermo/SurfPhase.h
index 7d4aa4b..72be094 100644
--- a/include/cantera/thermo/SurfPhase.h
+++ b/include/cantera/thermo/SurfPhase.h
@@ -307,6 +307,10 @@ public:
 protected:
     void compositionChanged() override;
 
+    //! Set the density such that all sites are occupied, accounting for the number
+    //! of sites that each species takes.
+    void updateDensity();
+
     //! Surface site density (kmol m-2)
     double m_n0 = 1.0;
 
diff --git a/src/thermo/SurfPhase.cpp b/src/thermo/SurfPhase.cpp
index 5432272..7c1b369 100644
--- a/src/thermo/SurfPhase.cpp
+++ b/src/thermo/SurfPhase.cpp
@@ -208,7 +208,7 @@ void SurfPhase::setSiteDensity(double n0)
                            "Site density must be positive. Got {}", n0);
     }
     m_n0 = n0;
-    assignDensity(n0 * meanMolecularWeight());
+    updateDensity();
     m_logn0 = log(m_n0);
 }
 
@@ -297,7 +297,20 @@ void SurfPhase::setState(const AnyMap& state) {
 void SurfPhase::compositionChanged()
 {
     ThermoPhase::compositionChanged();
-    assignDensity(m_n0 * meanMolecularWeight());
+    updateDensity();
+}
+
+void SurfPhase::updateDensity()
+{
+    // The sites are fully occupied: each molecule of species k takes size(k) of them
+    double molecules = 0.0;
+    double sites = 0.0;
+    for (size_t k = 0; k < m_speciesSize.size(); k++) {
+        molecules += moleFraction(k);
+        sites += moleFraction(k) * m_speciesSize[k];
+    }
+    double sitesPerMolecule = (sites > 0.0) ? sites / molecules : 1.0;
+    assignDensity(m_n0 * meanMolecularWeight() / sitesPerMolecule);
 }
 
 void SurfPhase::_updateThermo(bool force) const
-- 
2.43.0


From e7736ec234c7d43ba14ccc1067283f83531653ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:07 +0000
Subject: [PATCH 37/62] fix: volume of binary-solution-tabulated without
 tabulated volumes

---
 src/thermo/BinarySolutionTabulatedThermo.cpp | 36 ++++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/thermo/BinarySolutionTabulatedThermo.cpp b/src/thermo/BinarySolutionTabulatedThermo.cpp
index 9542281..5c15c47 100644
--- a/src/thermo/BinarySolutionTabulatedThermo.cpp
+++ b/src/thermo/BinarySolutionTabulatedThermo.cpp
@@ -97,23 +97,20 @@ void BinarySolutionTabulatedThermo::initThermo()
         size_t N = x.size();
         vector<double> h = table.convertVector("enthalpy", "J/kmol", N);
         vector<double> s = table.convertVector("entropy", "J/kmol/K", N);
-        vector<double> vmol(N);
-        // Check for molar-volume key in tabulatedThermo table,
-        // otherwise calculate molar volume from pure species molar volumes
+        vector<double> vmol;
+        // Check for molar-volume key in tabulatedThermo table, otherwise the molar
+        // volume is calculated from the pure species molar volumes
         if (table.hasKey("molar-volume")) {
             vmol = table.convertVector("molar-volume", "m^3/kmol", N);
-        } else {
-            for(size_t i = 0; i < N; i++) {
-                vmol[i] = x[i] * m_speciesMolarVolume[m_kk_tab] + (1-x[i])
-                        * m_speciesMolarVolume[1-m_kk_tab];
-            }
         }
 
         // Sort the x, h, s, vmol data in the order of increasing x
-        vector<pair<double,double>> x_h(N), x_s(N), x_vmol(N);
+        vector<pair<double,double>> x_h(N), x_s(N), x_vmol(vmol.size());
         for(size_t i = 0; i < N; i++) {
             x_h[i] = {x[i], h[i]};
             x_s[i] = {x[i], s[i]};
+        }
+        for (size_t i = 0; i < vmol.size(); i++) {
             x_vmol[i] = {x[i], vmol[i]};
         }
         std::sort(x_h.begin(), x_h.end());
@@ -124,17 +121,21 @@ void BinarySolutionTabulatedThermo::initThermo()
         m_molefrac_tab.resize(N);
         m_enthalpy_tab.resize(N);
         m_entropy_tab.resize(N);
-        m_molar_volume_tab.resize(N);
-        m_derived_molar_volume_tab.resize(N);
+        m_molar_volume_tab.resize(vmol.size());
+        m_derived_molar_volume_tab.resize(vmol.size());
 
         for (size_t i = 0; i < N; i++) {
             m_molefrac_tab[i] = x_h[i].first;
             m_enthalpy_tab[i] = x_h[i].second;
             m_entropy_tab[i] = x_s[i].second;
-            m_molar_volume_tab[i] = x_vmol[i].second;
         }
 
-        diff(m_molar_volume_tab, m_derived_molar_volume_tab);
+        if (!vmol.empty()) {
+            for (size_t i = 0; i < N; i++) {
+                m_molar_volume_tab[i] = x_vmol[i].second;
+            }
+            diff(m_molar_volume_tab, m_derived_molar_volume_tab);
+        }
     }
     IdealSolidSolnPhase::initThermo();
 }
@@ -152,7 +153,9 @@ void BinarySolutionTabulatedThermo::getParameters(AnyMap& phaseNode) const
     tabThermo["mole-fractions"] = m_molefrac_tab;
     tabThermo["enthalpy"].setQuantity(m_enthalpy_tab, "J/kmol");
     tabThermo["entropy"].setQuantity(m_entropy_tab, "J/kmol/K");
-    tabThermo["molar-volume"].setQuantity(m_molar_volume_tab, "m^3/kmol");
+    if (!m_molar_volume_tab.empty()) {
+        tabThermo["molar-volume"].setQuantity(m_molar_volume_tab, "m^3/kmol");
+    }
     phaseNode["tabulated-thermo"] = std::move(tabThermo);
 }
 
@@ -203,6 +206,11 @@ void BinarySolutionTabulatedThermo::getPartialMolarVolumes(double* vbar) const
 
 void BinarySolutionTabulatedThermo::calcDensity()
 {
+    if (m_molar_volume_tab.empty()) {
+        // No tabulated molar volume: based on the species molar volumes
+        IdealSolidSolnPhase::calcDensity();
+        return;
+    }
     double Xtab = moleFraction(m_kk_tab);
     double Vm = interpolate(Xtab, m_molar_volume_tab);
     double dVdX_tab = interpolate(Xtab, m_derived_molar_volume_tab);
-- 
2.43.0


From 1f88cb7a4647ded0216474e9e5df6f7b90482322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:07 +0000
Subject: [PATCH 38/62] fix: explicit activation energy units in linear-Burke
 efficiencies

---
 src/kinetics/LinearBurkeRate.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/LinearBurkeRate.cpp b/src/kinetics/LinearBurkeRate.cpp
index 85e1c48..a0f1ae0 100644
--- a/src/kinetics/LinearBurkeRate.cpp
+++ b/src/kinetics/LinearBurkeRate.cpp
@@ -147,8 +147,13 @@ void LinearBurkeRate::setParameters(const AnyMap& node, const UnitStack& rate_un
             colliders[0][eig_eps_key]["A"].asDouble();
         params["b"] = colliders[i][eig_eps_key]["b"].asDouble() -
             colliders[0][eig_eps_key]["b"].asDouble();
-        params["Ea"] = colliders[i][eig_eps_key]["Ea"].asDouble() -
-            colliders[0][eig_eps_key]["Ea"].asDouble();
+        // The units of each activation energy may be specified explicitly
+        auto& units_i = colliders[i].units();
+        double Ea_i = units_i.convertActivationEnergy(
+            colliders[i][eig_eps_key]["Ea"], "J/kmol");
+        double Ea_M = colliders[0].units().convertActivationEnergy(
+            colliders[0][eig_eps_key]["Ea"], "J/kmol");
+        params["Ea"] = units_i.convertActivationEnergyFrom(Ea_i - Ea_M, "J/kmol");
 
         if (params["A"].asDouble() < 0) {
             throw InputFileError("LinearBurkeRate::setParameters", colliders[i],
-- 
2.43.0


From 4a1dc461fc6d2f3ce6b3a97369ab90c2cfa4cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:07 +0000
Subject: [PATCH 39/62] fix: prefixed kelvin as default activation energy unit;
 roundoff in fractional unit exponents

---
 src/base/Units.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index fd1566d..f82fae0 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -198,12 +198,17 @@ Units::Units(const string& name, bool force_unity)
 
 bool Units::convertible(const Units& other) const
 {
-    return (m_mass_dim == other.m_mass_dim &&
-            m_length_dim == other.m_length_dim &&
-            m_time_dim == other.m_time_dim &&
-            m_temperature_dim == other.m_temperature_dim &&
-            m_current_dim == other.m_current_dim &&
-            m_quantity_dim == other.m_quantity_dim);
+    // Fractional exponents may differ by the roundoff in sums of such exponents, for
+    // example for the units of rate constants with fractional reaction orders
+    auto same = [](double dim1, double dim2) {
+        return std::abs(dim1 - dim2) < 1e-10;
+    };
+    return (same(m_mass_dim, other.m_mass_dim) &&
+            same(m_length_dim, other.m_length_dim) &&
+            same(m_time_dim, other.m_time_dim) &&
+            same(m_temperature_dim, other.m_temperature_dim) &&
+            same(m_current_dim, other.m_current_dim) &&
+            same(m_quantity_dim, other.m_quantity_dim));
 }
 
 Units& Units::operator*=(const Units& other)
@@ -525,7 +530,7 @@ void UnitSystem::setDefaultActivationEnergy(const string& e_units)
     if (u.convertible(Units("J/kmol"))) {
         m_activation_energy_factor = u.factor();
     } else if (u.convertible(knownUnits.at("K"))) {
-        m_activation_energy_factor = GasConstant;
+        m_activation_energy_factor = GasConstant * u.factor();
     } else if (u.convertible(knownUnits.at("eV"))) {
         m_activation_energy_factor = u.factor() * Avogadro;
     } else {
@@ -713,7 +718,7 @@ double UnitSystem::convertActivationEnergyTo(double value,
     if (dest.convertible(Units("J/kmol"))) {
         return value * m_activation_energy_factor / dest.factor();
     } else if (dest.convertible(knownUnits.at("K"))) {
-        return value * m_activation_energy_factor / GasConstant;
+        return value * m_activation_energy_factor / (GasConstant * dest.factor());
     } else if (dest.convertible(knownUnits.at("eV"))) {
         return value * m_activation_energy_factor / (Avogadro * dest.factor());
     } else {
@@ -728,7 +733,7 @@ double UnitSystem::convertActivationEnergyFrom(double value, const string& src)
     if (usrc.convertible(Units("J/kmol"))) {
         return value * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("K"))) {
-        return value * GasConstant / m_activation_energy_factor;
+        return value * GasConstant * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("eV"))) {
         return value * Avogadro * usrc.factor() / m_activation_energy_factor;
     } else {
-- 
2.43.0


From acfa07cfa15d893b47065f84d07fc6f288baac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:22 +0000
Subject: [PATCH 40/62] fix: don't write unconverted default Debye-Huckel
 parameters of species

---
 src/thermo/DebyeHuckel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thermo/DebyeHuckel.cpp b/src/thermo/DebyeHuckel.cpp
index c96d9fc..e90c5d4 100644
--- a/src/thermo/DebyeHuckel.cpp
+++ b/src/thermo/DebyeHuckel.cpp
@@ -501,6 +501,10 @@ void DebyeHuckel::getSpeciesParameters(const string& name, AnyMap& speciesNode)
 
     if (dhNode.size()) {
         speciesNode["Debye-Huckel"] = std::move(dhNode);
+    } else {
+        // All parameters have their default values. Don't save the node from the
+        // original input, where quantities are not converted to the output units.
+        speciesNode.exclude("Debye-Huckel");
     }
 }
 
-- 
2.43.0


From 736504a76a34c5a667ab6064a089dc309c041fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:26 +0000
Subject: [PATCH 41/62] fix: accept round-off limited residuals in the density
 of water

---
 src/thermo/WaterPropsIAPWSphi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thermo/WaterPropsIAPWSphi.cpp b/src/thermo/WaterPropsIAPWSphi.cpp
index fd0bdc2..dd6be47 100644
--- a/src/thermo/WaterPropsIAPWSphi.cpp
+++ b/src/thermo/WaterPropsIAPWSphi.cpp
@@ -896,8 +896,10 @@ double WaterPropsIAPWSphi::dfind(double p_red, double tau, double deltaGuess)
             continue;
         }
 
-        // Check for convergence
-        if (fabs(pred0-p_red) < pcheck) {
+        // Check for convergence. In the final iterations, accept residuals that are
+        // due to round-off in the terms of the predicted reduced pressure.
+        if (fabs(pred0-p_red) < pcheck
+            || (n >= 190 && fabs(pred0 - p_red) < 1.0E-12 * dd)) {
             conv = true;
             break;
         }
-- 
2.43.0


From f356fba401b0791cb0061021c5d77c463400db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:26 +0000
Subject: [PATCH 42/62] fix: periodic functors for negative arguments

---
 include/cantera/numerics/Func1.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cantera/numerics/Func1.h b/include/cantera/numerics/Func1.h
index 44db9f5..c6eadf8 100644
--- a/include/cantera/numerics/Func1.h
+++ b/include/cantera/numerics/Func1.h
@@ -831,8 +831,7 @@ public:
     }
 
     double eval(double t) const override {
-        int np = int(t/m_c);
-        double time = t - np*m_c;
+        double time = t - std::floor(t / m_c) * m_c;
         return m_f1->eval(time);
     }
 };
-- 
2.43.0


From f12279b2cb90b2dc13dc52dedf07539754d32292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:26 +0000
Subject: [PATCH 43/62] fix: tabulated functors at and outside the tabulated
 points

---
 src/numerics/Func1.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index d4b93e1..2dacb3b 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -370,7 +370,7 @@ double Tabulated1::eval(double t) const {
         return m_fvec[siz-1];
     } else {
         size_t ix = 0;
-        while (t > m_tvec[ix+1]) {
+        while (t > m_tvec[ix+1] || (!m_isLinear && t == m_tvec[ix+1])) {
             ix++;
         }
         if (m_isLinear) {
@@ -389,7 +389,9 @@ shared_ptr<Func1> Tabulated1::derivative() const {
     vector<double> dvec;
     size_t siz = m_tvec.size();
     if (m_isLinear) {
-        // piece-wise continuous derivative
+        // piece-wise continuous derivative; the function is constant outside the table
+        tvec.push_back(m_tvec[0]);
+        dvec.push_back(0.);
         if (siz>1) {
             for (size_t i=1; i<siz; i++) {
                 double d = (m_fvec[i] - m_fvec[i-1]) /
-- 
2.43.0


From 6e30115b657f3de88d2a64e8bc6f99ec0b6be387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:26 +0000
Subject: [PATCH 44/62] fix: pass normalize on when reading CSV files with
 pandas

---
 interfaces/cython/cantera/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cython/cantera/composite.py b/interfaces/cython/cantera/composite.py
index 711cfc9..78d29ca 100644
--- a/interfaces/cython/cantera/composite.py
+++ b/interfaces/cython/cantera/composite.py
@@ -1188,7 +1188,7 @@ class SolutionArray(SolutionArrayBase):
             # pandas handles escaped entries correctly
             _import_pandas()
             df = _pandas.read_csv(filename)
-            self.from_pandas(df)
+            self.from_pandas(df, normalize=normalize)
             return
         except ImportError:
             pass
-- 
2.43.0


From 48ac9d3a20169d7e6f9bf2b7137caa9f49060316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:26 +0000
Subject: [PATCH 45/62] fix: restore states and assign extra components of
 SolutionArray views

---
 src/base/SolutionArray.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index dba2af8..228204e 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -778,8 +778,6 @@ void SolutionArray::setLoc(int loc, bool restore)
                 "Both current and buffered indices are invalid.");
         }
         return;
-    } else if (static_cast<size_t>(m_active[loc_]) == m_loc) {
-        return;
     } else if (loc_ >= m_size) {
         throw IndexError("SolutionArray::setLoc", "indices", loc_, m_size);
     }
@@ -2019,15 +2017,29 @@ void setScalar(AnyValue& extra, const AnyValue& data, const vector<int>& slice)
     }
 }
 
+//! Check whether a slice holds all entries in their original order
+static bool isComplete(const vector<int>& slice, size_t size)
+{
+    if (slice.size() != size) {
+        return false;
+    }
+    for (size_t k = 0; k < size; k++) {
+        if (static_cast<size_t>(slice[k]) != k) {
+            return false;
+        }
+    }
+    return true;
+}
+
 template<class T>
 void setSingle(AnyValue& extra, const AnyValue& data, const vector<int>& slice)
 {
     size_t size = slice.size();
-    if (extra.vectorSize() == size && data.vectorSize() == size) {
+    if (isComplete(slice, extra.vectorSize()) && data.vectorSize() == size) {
         extra = data; // no slicing necessary; type can change
         return;
     }
-    if (extra.matrixShape().first == size && data.vectorSize() == size) {
+    if (isComplete(slice, extra.matrixShape().first) && data.vectorSize() == size) {
         extra = data; // no slicing necessary; shape and type can change
         return;
     }
@@ -2058,11 +2070,11 @@ void setMulti(AnyValue& extra, const AnyValue& data, const vector<int>& slice)
     }
     size_t size = slice.size();
     auto [rows, cols] = data.matrixShape();
-    if (extra.matrixShape().first == size && rows == size) {
+    if (isComplete(slice, extra.matrixShape().first) && rows == size) {
         extra = data; // no slicing necessary; type can change
         return;
     }
-    if (extra.vectorSize() == size && rows == size) {
+    if (isComplete(slice, extra.vectorSize()) && rows == size) {
         extra = data; // no slicing necessary; shape and type can change
         return;
     }
-- 
2.43.0


From 36a462ae148ec99031b4525a37ef8117be1cc306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:02 +0000
Subject: [PATCH 46/62] fix: store single-row SolutionArray with extra
 components or pure phases

---
 src/base/SolutionArray.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 228204e..e5ac2e1 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -1232,7 +1232,11 @@ void SolutionArray::writeEntry(AnyMap& root, const string& name, const string& s
     }
     data.update(m_meta);
 
-    if (m_size > 1) {
+    // A single entry without extra components is stored in terms of temperature,
+    // pressure and composition
+    auto phase = m_sol->thermo();
+    bool compact = m_size == 1 && m_order->empty() && !phase->isPure();
+    if (m_size && !compact) {
         data["components"] = componentNames();
     }
 
@@ -1240,8 +1244,7 @@ void SolutionArray::writeEntry(AnyMap& root, const string& name, const string& s
         data[key] = m_extra->at(key);
     }
 
-    auto phase = m_sol->thermo();
-    if (m_size == 1) {
+    if (compact) {
         setLoc(0);
         data["temperature"] = phase->temperature();
         data["pressure"] = phase->pressure();
@@ -1264,7 +1267,7 @@ void SolutionArray::writeEntry(AnyMap& root, const string& name, const string& s
         } else {
             data["mass-fractions"] = std::move(items);
         }
-    } else if (m_size > 1) {
+    } else if (m_size) {
         for (auto& code : phase->nativeMode()) {
             string name(1, code);
             if (name == "X" || name == "Y") {
@@ -1865,7 +1868,7 @@ void SolutionArray::readEntry(const AnyMap& root, const string& name, const stri
     size_t nState = m_sol->thermo()->stateSize();
     if (m_dataSize == 0) {
         // no data points
-    } else if (m_dataSize == 1) {
+    } else if (m_dataSize == 1 && !path.hasKey("components")) {
         // single data point
         string mode = _detectMode(names, false);
         if (mode == "TPY") {
-- 
2.43.0


From 76f25e80c0a0fc48a1030c873e312084b5a245a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:03 +0000
Subject: [PATCH 47/62] fix: multi-dimensional slices and vapor fractions of
 SolutionArray

---
 interfaces/cython/cantera/composite.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interfaces/cython/cantera/composite.py b/interfaces/cython/cantera/composite.py
index 78d29ca..94909a0 100644
--- a/interfaces/cython/cantera/composite.py
+++ b/interfaces/cython/cantera/composite.py
@@ -666,10 +666,7 @@ class SolutionArray(SolutionArrayBase):
     def __getitem__(self, index):
         selected = np.arange(self.size).reshape(self.shape)[index]
         out = SolutionArray(self._phase, init=False)
-        if hasattr(selected, "__len__"):
-            self._share(out, selected)
-        else:
-            self._share(out, [selected])
+        self._share(out, np.ravel(selected))
         out.shape = selected.shape
         return out
 
@@ -1355,6 +1352,14 @@ def _state3_prop(name, doc_source, scalar=False):
         if len(ABC) != 3:
             raise ValueError("Expected 3 elements, got {}".format(len(ABC)))
         A, B, _ = np.broadcast_arrays(ABC[0], ABC[1], self._output_dummy)
+        if scalar:
+            # third property is a scalar (vapor fraction)
+            C, _ = np.broadcast_arrays(ABC[2], self._output_dummy)
+            for loc, index in enumerate(self._indices):
+                self._set_loc(loc)
+                setattr(self._phase, name, (A[index], B[index], C[index]))
+                self._update_state(loc)
+            return
         XY = ABC[2] # composition
         if len(np.shape(XY)) < 2:
             # composition is a single array (or string or dict)
-- 
2.43.0


From 46ff266d9a8e3a2811d8a953a078c92d10ed9d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:53 +0000
Subject: [PATCH 48/62] fix: start from ambient conditions when a phase is
 defined by energies

---
 src/thermo/ThermoFactory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thermo/ThermoFactory.cpp b/src/thermo/ThermoFactory.cpp
index c3d76bc..4205d9a 100644
--- a/src/thermo/ThermoFactory.cpp
+++ b/src/thermo/ThermoFactory.cpp
@@ -345,6 +345,10 @@ void setupPhase(ThermoPhase& thermo, const AnyMap& phaseNode, const AnyMap& root
 
     if (phaseNode.hasKey("state")) {
         auto node = phaseNode["state"].as<AnyMap>();
+        if (!node.hasKey("T") && !node.hasKey("temperature")) {
+            // initial guess for states that are solved for iteratively
+            thermo.setState_TP(298.15, OneAtm);
+        }
         thermo.setState(node);
     } else {
         thermo.setState_TP(298.15, OneAtm);
-- 
2.43.0


From fb66a7e5e38271b03d7218bb90be087a9a899f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 49/62] fix: keep Python operands of composite functors alive

---
 interfaces/cython/cantera/func1.pxd |  3 ++-
 interfaces/cython/cantera/func1.pyx | 34 ++++++++++++++++++++---------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/interfaces/cython/cantera/func1.pxd b/interfaces/cython/cantera/func1.pxd
index 9757c95..19fa1b6 100644
--- a/interfaces/cython/cantera/func1.pxd
+++ b/interfaces/cython/cantera/func1.pxd
@@ -57,8 +57,9 @@ cdef class Func1:
     cdef CxxFunc1* func
     cdef object callable
     cdef object exception
+    cdef object operands
     cpdef void _set_callback(self, object) except *
     @staticmethod
     cdef shared_ptr[CxxFunc1] _make_cxx_func1(string, tuple) except *
     @staticmethod
-    cdef Func1 _make_func1(shared_ptr[CxxFunc1])
+    cdef Func1 _make_func1(shared_ptr[CxxFunc1], tuple)
diff --git a/interfaces/cython/cantera/func1.pyx b/interfaces/cython/cantera/func1.pyx
index 1de48b6..75758f8 100644
--- a/interfaces/cython/cantera/func1.pyx
+++ b/interfaces/cython/cantera/func1.pyx
@@ -101,6 +101,7 @@ cdef class Func1:
     def __cinit__(self, *args, **kwargs):
         self.exception = None
         self.callable = None
+        self.operands = None
 
     def __init__(self, c, *args, init=True):
         if init is False:
@@ -114,6 +115,7 @@ cdef class Func1:
         cdef shared_ptr[CxxFunc1] cxx_func
         if isinstance(c, str):
             cxx_func = Func1._make_cxx_func1(stringify(c), args)
+            self.operands = args
             self._func = cxx_func
             self.func = cxx_func.get()
             return
@@ -213,9 +215,13 @@ cdef class Func1:
         return func
 
     @staticmethod
-    cdef Func1 _make_func1(shared_ptr[CxxFunc1] func):
-        """Create Python Func1 from C++ functor."""
+    cdef Func1 _make_func1(shared_ptr[CxxFunc1] func, tuple operands):
+        """
+        Create Python Func1 from C++ functor. The Python objects ``operands`` are kept
+        alive, as a C++ functor only holds a bare pointer to the Python callback.
+        """
         cdef Func1 out = Func1(None, init=False)
+        out.operands = operands
         out._func = func
         out.func = out._func.get()
         return out
@@ -232,13 +238,15 @@ cdef class Func1:
             f0 = self
         else:
             f0 = Func1(self)
-        return Func1._make_func1(CxxNewSumFunction(f0._func, f1._func))
+        return Func1._make_func1(
+            CxxNewSumFunction(f0._func, f1._func), (f0, f1))
 
     def __radd__(self, other):
         if not isinstance(other, Func1):
             other = Func1(other)
         cdef Func1 f1 = other
-        return Func1._make_func1(CxxNewSumFunction(f1._func, self._func))
+        return Func1._make_func1(
+            CxxNewSumFunction(f1._func, self._func), (f1, self))
 
     def __sub__(self, other):
         if not isinstance(other, Func1):
@@ -252,13 +260,15 @@ cdef class Func1:
             f0 = self
         else:
             f0 = Func1(self)
-        return Func1._make_func1(CxxNewDiffFunction(f0._func, f1._func))
+        return Func1._make_func1(
+            CxxNewDiffFunction(f0._func, f1._func), (f0, f1))
 
     def __rsub__(self, other):
         if not isinstance(other, Func1):
             other = Func1(other)
         cdef Func1 f1 = other
-        return Func1._make_func1(CxxNewDiffFunction(f1._func, self._func))
+        return Func1._make_func1(
+            CxxNewDiffFunction(f1._func, self._func), (f1, self))
 
     def __mul__(self, other):
         if not isinstance(other, Func1):
@@ -271,13 +281,15 @@ cdef class Func1:
             f0 = self
         else:
             f0 = Func1(self)
-        return Func1._make_func1(CxxNewProdFunction(f0._func, f1._func))
+        return Func1._make_func1(
+            CxxNewProdFunction(f0._func, f1._func), (f0, f1))
 
     def __rmul__(self, other):
         if not isinstance(other, Func1):
             other = Func1(other)
         cdef Func1 f1 = other
-        return Func1._make_func1(CxxNewProdFunction(f1._func, self._func))
+        return Func1._make_func1(
+            CxxNewProdFunction(f1._func, self._func), (f1, self))
 
     def __truediv__(self, other):
         if not isinstance(other, Func1):
@@ -290,13 +302,15 @@ cdef class Func1:
             f0 = self
         else:
             f0 = Func1(self)
-        return Func1._make_func1(CxxNewRatioFunction(f0._func, f1._func))
+        return Func1._make_func1(
+            CxxNewRatioFunction(f0._func, f1._func), (f0, f1))
 
     def __rtruediv__(self, other):
         if not isinstance(other, Func1):
             other = Func1(other)
         cdef Func1 f1 = other
-        return Func1._make_func1(CxxNewRatioFunction(f1._func, self._func))
+        return Func1._make_func1(
+            CxxNewRatioFunction(f1._func, self._func), (f1, self))
 
     @property
     def cxx_type(self):
-- 
2.43.0


From 5c1c32e7e3b9ced6e6a4fa6685221925797e8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 50/62] fix: stop subtracting stale radiative loss after
 radiation is disabled

---
 include/cantera/oneD/Flow1D.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cantera/oneD/Flow1D.h b/include/cantera/oneD/Flow1D.h
index 24497b3..1aad5dc 100644
--- a/include/cantera/oneD/Flow1D.h
+++ b/include/cantera/oneD/Flow1D.h
@@ -237,6 +237,9 @@ public:
     //! Turn radiation on / off.
     void enableRadiation(bool doRadiation) {
         m_do_radiation = doRadiation;
+        if (!doRadiation) {
+            std::fill(m_qdotRadiation.begin(), m_qdotRadiation.end(), 0.0);
+        }
     }
 
     //! Returns `true` if the radiation term in the energy equation is enabled
-- 
2.43.0


From 2bf4e0db43c5eee39aa917bb7f697df6bd15bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 51/62] fix: evaluate all domains with the global arrays after
 pruning

---
 src/oneD/Sim1D.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oneD/Sim1D.cpp b/src/oneD/Sim1D.cpp
index 0a0ce46..dbd95b6 100644
--- a/src/oneD/Sim1D.cpp
+++ b/src/oneD/Sim1D.cpp
@@ -502,8 +502,7 @@ void Sim1D::solve(int loglevel, bool refine_grid)
         // of the governing equations to update internal arrays in each domain that may
         // be used for data saved in output files.
         for (auto dom : m_dom) {
-            dom->eval(npos, m_state->data() + dom->loc(), m_xnew.data() + dom->loc(),
-                      m_mask.data());
+            dom->eval(npos, m_state->data(), m_xnew.data(), m_mask.data());
         }
     }
 }
-- 
2.43.0


From 97461abed6c6485e11d863e39a72397eb049c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:33 +0000
Subject: [PATCH 52/62] fix: skip the right species at an outlet reservoir

---
 src/oneD/Boundary1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oneD/Boundary1D.cpp b/src/oneD/Boundary1D.cpp
index b4a41b3..c9a55da 100644
--- a/src/oneD/Boundary1D.cpp
+++ b/src/oneD/Boundary1D.cpp
@@ -502,7 +502,7 @@ void OutletRes1D::eval(size_t jg, double* xg, double* rg,
     } else {
         rb[c_offset_T] = xb[c_offset_T] - m_flow_left->T_fixed(last);
     }
-    size_t kSkip = m_flow_left->rightExcessSpecies();
+    size_t kSkip = c_offset_Y + m_flow_left->rightExcessSpecies();
     for (size_t k = c_offset_Y; k < nc; k++) {
         if (k != kSkip) {
             rb[k] = xb[k] - m_yres[k-c_offset_Y]; // fixed Y
-- 
2.43.0


From 539912034c547aa65e5af0a5ec0d763cda30051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:33 +0000
Subject: [PATCH 53/62] fix: save and restore the spread rate of inlets

---
 src/oneD/Boundary1D.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oneD/Boundary1D.cpp b/src/oneD/Boundary1D.cpp
index c9a55da..e58b5dd 100644
--- a/src/oneD/Boundary1D.cpp
+++ b/src/oneD/Boundary1D.cpp
@@ -268,6 +268,7 @@ shared_ptr<SolutionArray> Inlet1D::asArray(const double* soln) const
 {
     AnyMap meta = Boundary1D::getMeta();
     meta["mass-flux"] = m_mdot;
+    meta["spread-rate"] = m_V0;
     auto arr = SolutionArray::create(m_solution, 1, meta);
 
     // set gas state (using pressure from adjacent domain)
@@ -295,6 +296,9 @@ void Inlet1D::fromArray(SolutionArray& arr, double* soln)
         auto aux = arr.getAuxiliary(0);
         m_mdot = phase->density() * aux.at("velocity").as<double>();
     }
+    if (meta.hasKey("spread-rate")) {
+        m_V0 = meta.at("spread-rate").asDouble();
+    }
     phase->getMassFractions(m_yin.data());
 }
 
-- 
2.43.0


From b585f71b77a097b50541f105b10de69cdffb4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:33 +0000
Subject: [PATCH 54/62] fix: use multicomponent fluxes for flows built with
 that model

---
 src/oneD/Flow1D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oneD/Flow1D.cpp b/src/oneD/Flow1D.cpp
index f2609ee..2ccd754 100644
--- a/src/oneD/Flow1D.cpp
+++ b/src/oneD/Flow1D.cpp
@@ -107,6 +107,7 @@ Flow1D::Flow1D(shared_ptr<Solution> sol, const string& id, size_t points)
             "An appropriate transport model\nshould be set when instantiating the "
             "Solution ('gas') object.");
     }
+    Flow1D::setTransport(m_solution->transport());
     m_solution->registerChangedCallback(this, [this]() {
         setKinetics(m_solution->kinetics());
         setTransport(m_solution->transport());
-- 
2.43.0


From 6224b20b338684ff5c677b252a772ed82ca3eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:33 +0000
Subject: [PATCH 55/62] fix: save densities that belong to the saved profiles

---
 src/oneD/Flow1D.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oneD/Flow1D.cpp b/src/oneD/Flow1D.cpp
index 2ccd754..7d4bce9 100644
--- a/src/oneD/Flow1D.cpp
+++ b/src/oneD/Flow1D.cpp
@@ -934,7 +934,12 @@ shared_ptr<SolutionArray> Flow1D::asArray(const double* soln) const
             arr->setComponent(name, value);
         }
     }
-    value = m_rho;
+    for (size_t j = 0; j < nPoints(); j++) {
+        m_thermo->setState_TPY(soln[index(c_offset_T, j)], m_press,
+                               soln + index(c_offset_Y, j));
+        data[j] = m_thermo->density();
+    }
+    value = data;
     arr->setComponent("D", value); // use density rather than pressure
 
     if (m_do_radiation) {
@@ -973,7 +978,7 @@ void Flow1D::fromArray(SolutionArray& arr, double* soln)
         }
     }
 
-    updateProperties(npos, soln + loc(), 0, m_points - 1);
+    updateProperties(npos, soln, 0, m_points - 1);
 }
 
 void Flow1D::setMeta(const AnyMap& state)
-- 
2.43.0


From b966ad8320c69dc89bfd098825d4ef7d4702af19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:25 +0000
Subject: [PATCH 56/62] fix: do not divide by a zero factor when simplifying
 functors

---
 src/numerics/Func1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index 2dacb3b..3ebcffc 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -575,6 +575,10 @@ pair<bool, double> isProportional(
 {
     bool tc1 = isTimesConst(f1);
     bool tc2 = isTimesConst(f2);
+    if (tc1 && f1->c() == 0.0) {
+        // f2 cannot be expressed as a multiple of zero
+        return {false, 0.};
+    }
     if (!tc1 && !tc2) {
         if (f1->isIdentical(f2)) {
             return {true, 1.0};
-- 
2.43.0


From 609ae079ed870b19ba232790fd5d29b71fe4f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:24 +0000
Subject: [PATCH 57/62] fix: recognize auxiliary keywords of Chemkin reactions
 by name instead of anywhere in a line

---
 interfaces/cython/cantera/ck2yaml.py | 289 ++++++++++++++-------------
 1 file changed, 145 insertions(+), 144 deletions(-)

diff --git a/interfaces/cython/cantera/ck2yaml.py b/interfaces/cython/cantera/ck2yaml.py
index 4329def..cea9f33 100644
--- a/interfaces/cython/cantera/ck2yaml.py
+++ b/interfaces/cython/cantera/ck2yaml.py
@@ -1275,157 +1275,158 @@ class Parser:
         Tmin = Tmax = Pmin = Pmax = None  # Chebyshev parameters
         degreeT = degreeP = None
 
-        # Note that the subsequent lines could be in any order
+        # Note that the subsequent lines could be in any order, and that each line can
+        # contain several keywords or collider names, each followed by its data
         for line in lines[1:]:
-            if not line.strip():
-                continue
-            tokens = line.split('/')
-            parsed = False
-
-            if 'stick' in line.lower():
-                parsed = True
-                is_sticking = True
-
-            if 'mwon' in line.lower():
-                parsed = True
-                motz_wise = True
-
-            if 'mwoff' in line.lower():
-                parsed = True
-                motz_wise = False
-
-            if 'dup' in line.lower():
-                # Duplicate reaction
-                parsed = True
-                reaction.duplicate = True
-
-            if 'low' in line.lower():
-                # Low-pressure-limit Arrhenius parameters for "falloff" reaction
-                parsed = True
-                tokens = tokens[1].split()
-                low_rate = Arrhenius(
-                    A=(float(tokens[0].strip()), klow_units),
-                    b=float(tokens[1].strip()),
-                    Ea=(float(tokens[2].strip()), energy_units),
-                    parser=self
-                )
-
-            elif 'high' in line.lower():
-                # High-pressure-limit Arrhenius parameters for "chemically
-                # activated" reaction
-                parsed = True
-                tokens = tokens[1].split()
-                high_rate = Arrhenius(
-                    A=(float(tokens[0].strip()), kunits),
-                    b=float(tokens[1].strip()),
-                    Ea=(float(tokens[2].strip()), energy_units),
-                    parser=self
-                )
-                # Need to fix units on the base reaction:
-                arrhenius.A = (arrhenius.A[0], klow_units)
-
-            elif 'rev' in line.lower():
-                parsed = True
-                reaction.reversible = False
-                tokens = tokens[1].split()
-                # If the A factor in the rev line is zero, don't create the reverse reaction
-                if float(tokens[0].strip()) != 0.0:
-                    # Create a reaction proceeding in the opposite direction
-                    revReaction = Reaction(reactants=reaction.products,
-                                           products=reaction.reactants,
-                                           third_body=reaction.third_body,
-                                           reversible=False)
-
-                    rev_rate = Arrhenius(
+            parsed = not line.strip()
+            for item in re.findall(r'[^/\s]+(?:\s*/[^/]*/?)?', line):
+                tokens = item.split('/')
+                keyword = tokens[0].strip().lower()
+
+                if keyword.startswith('stick') and len(tokens) == 1:
+                    parsed = True
+                    is_sticking = True
+
+                if keyword == 'mwon' and len(tokens) == 1:
+                    parsed = True
+                    motz_wise = True
+
+                if keyword == 'mwoff' and len(tokens) == 1:
+                    parsed = True
+                    motz_wise = False
+
+                if keyword.startswith('dup') and len(tokens) == 1:
+                    # Duplicate reaction
+                    parsed = True
+                    reaction.duplicate = True
+
+                if keyword == 'low':
+                    # Low-pressure-limit Arrhenius parameters for "falloff" reaction
+                    parsed = True
+                    tokens = tokens[1].split()
+                    low_rate = Arrhenius(
                         A=(float(tokens[0].strip()), klow_units),
                         b=float(tokens[1].strip()),
                         Ea=(float(tokens[2].strip()), energy_units),
                         parser=self
                     )
-                    if third_body:
-                        revReaction.kinetics = ThreeBody(rev_rate)
+
+                elif keyword == 'high':
+                    # High-pressure-limit Arrhenius parameters for "chemically
+                    # activated" reaction
+                    parsed = True
+                    tokens = tokens[1].split()
+                    high_rate = Arrhenius(
+                        A=(float(tokens[0].strip()), kunits),
+                        b=float(tokens[1].strip()),
+                        Ea=(float(tokens[2].strip()), energy_units),
+                        parser=self
+                    )
+                    # Need to fix units on the base reaction:
+                    arrhenius.A = (arrhenius.A[0], klow_units)
+
+                elif keyword == 'rev':
+                    parsed = True
+                    reaction.reversible = False
+                    tokens = tokens[1].split()
+                    # If the A factor in the rev line is zero, don't create the reverse reaction
+                    if float(tokens[0].strip()) != 0.0:
+                        # Create a reaction proceeding in the opposite direction
+                        revReaction = Reaction(reactants=reaction.products,
+                                               products=reaction.reactants,
+                                               third_body=reaction.third_body,
+                                               reversible=False)
+
+                        rev_rate = Arrhenius(
+                            A=(float(tokens[0].strip()), klow_units),
+                            b=float(tokens[1].strip()),
+                            Ea=(float(tokens[2].strip()), energy_units),
+                            parser=self
+                        )
+                        if third_body:
+                            revReaction.kinetics = ThreeBody(rev_rate)
+                        else:
+                            revReaction.kinetics = ElementaryRate(rev_rate)
+
+                elif keyword == 'ford':
+                    parsed = True
+                    tokens = tokens[1].split()
+                    reaction.forward_orders[tokens[0].strip()] = float(tokens[1])
+
+                elif keyword == 'troe':
+                    # Troe falloff parameters
+                    parsed = True
+                    tokens = tokens[1].split()
+                    falloff = Troe(A=float(tokens[0].strip()),
+                                   T3=float(tokens[1].strip()),
+                                   T1=float(tokens[2].strip()),
+                                   T2=float(tokens[3].strip()) if len(tokens) > 3 else None)
+                elif keyword == 'sri':
+                    # SRI falloff parameters
+                    parsed = True
+                    tokens = tokens[1].split()
+                    A = float(tokens[0].strip())
+                    B = float(tokens[1].strip())
+                    C = float(tokens[2].strip())
+                    try:
+                        D = float(tokens[3].strip())
+                        E = float(tokens[4].strip())
+                    except (IndexError, ValueError):
+                        D = None
+                        E = None
+
+                    if D is None or E is None:
+                        falloff = Sri(A=A, B=B, C=C)
                     else:
-                        revReaction.kinetics = ElementaryRate(rev_rate)
-
-            elif 'ford' in line.lower():
-                parsed = True
-                tokens = tokens[1].split()
-                reaction.forward_orders[tokens[0].strip()] = float(tokens[1])
-
-            elif 'troe' in line.lower():
-                # Troe falloff parameters
-                parsed = True
-                tokens = tokens[1].split()
-                falloff = Troe(A=float(tokens[0].strip()),
-                               T3=float(tokens[1].strip()),
-                               T1=float(tokens[2].strip()),
-                               T2=float(tokens[3].strip()) if len(tokens) > 3 else None)
-            elif 'sri' in line.lower():
-                # SRI falloff parameters
-                parsed = True
-                tokens = tokens[1].split()
-                A = float(tokens[0].strip())
-                B = float(tokens[1].strip())
-                C = float(tokens[2].strip())
-                try:
-                    D = float(tokens[3].strip())
-                    E = float(tokens[4].strip())
-                except (IndexError, ValueError):
-                    D = None
-                    E = None
-
-                if D is None or E is None:
-                    falloff = Sri(A=A, B=B, C=C)
-                else:
-                    falloff = Sri(A=A, B=B, C=C, D=D, E=E)
-
-            elif 'cov' in line.lower():
-                parsed = True
-                C = tokens[1].split()
-                coverages.append(
-                    [C[0], fortFloat(C[1]), fortFloat(C[2]), fortFloat(C[3])])
-
-            elif 'cheb' in line.lower():
-                # Chebyshev parameters
-                parsed = True
-                tokens = [t.strip() for t in tokens]
-                if contains(tokens, 'TCHEB'):
-                    index = get_index(tokens, 'TCHEB')
-                    tokens2 = tokens[index+1].split()
-                    Tmin = float(tokens2[0].strip())
-                    Tmax = float(tokens2[1].strip())
-                if contains(tokens, 'PCHEB'):
-                    index = get_index(tokens, 'PCHEB')
-                    tokens2 = tokens[index+1].split()
-                    Pmin = (float(tokens2[0].strip()), 'atm')
-                    Pmax = (float(tokens2[1].strip()), 'atm')
-                if contains(tokens, 'TCHEB') or contains(tokens, 'PCHEB'):
-                    pass
-                elif degreeT is None or degreeP is None:
-                    tokens2 = tokens[1].split()
-                    degreeT = int(float(tokens2[0].strip()))
-                    degreeP = int(float(tokens2[1].strip()))
-                    cheb_coeffs.extend([float(t.strip()) for t in tokens2[2:]])
-                else:
-                    tokens2 = tokens[1].split()
-                    cheb_coeffs.extend([float(t.strip()) for t in tokens2])
-
-            elif 'plog' in line.lower():
-                # Pressure-dependent Arrhenius parameters
-                parsed = True
-                third_body = False # strip optional third-body collider
-                tokens = tokens[1].split()
-                pdep_arrhenius.append([float(tokens[0].strip()), Arrhenius(
-                    A=(float(tokens[1].strip()), kunits),
-                    b=float(tokens[2].strip()),
-                    Ea=(float(tokens[3].strip()), energy_units),
-                    parser=self
-                )])
-            elif len(tokens) >= 2:
-                # Assume a list of collider efficiencies
-                parsed = True
-                for collider, efficiency in zip(tokens[0::2], tokens[1::2]):
-                    efficiencies[collider.strip()] = float(efficiency.strip())
+                        falloff = Sri(A=A, B=B, C=C, D=D, E=E)
+
+                elif keyword == 'cov':
+                    parsed = True
+                    C = tokens[1].split()
+                    coverages.append(
+                        [C[0], fortFloat(C[1]), fortFloat(C[2]), fortFloat(C[3])])
+
+                elif keyword in ('cheb', 'tcheb', 'pcheb'):
+                    # Chebyshev parameters
+                    parsed = True
+                    tokens = [t.strip() for t in tokens]
+                    if contains(tokens, 'TCHEB'):
+                        index = get_index(tokens, 'TCHEB')
+                        tokens2 = tokens[index+1].split()
+                        Tmin = float(tokens2[0].strip())
+                        Tmax = float(tokens2[1].strip())
+                    if contains(tokens, 'PCHEB'):
+                        index = get_index(tokens, 'PCHEB')
+                        tokens2 = tokens[index+1].split()
+                        Pmin = (float(tokens2[0].strip()), 'atm')
+                        Pmax = (float(tokens2[1].strip()), 'atm')
+                    if contains(tokens, 'TCHEB') or contains(tokens, 'PCHEB'):
+                        pass
+                    elif degreeT is None or degreeP is None:
+                        tokens2 = tokens[1].split()
+                        degreeT = int(float(tokens2[0].strip()))
+                        degreeP = int(float(tokens2[1].strip()))
+                        cheb_coeffs.extend([float(t.strip()) for t in tokens2[2:]])
+                    else:
+                        tokens2 = tokens[1].split()
+                        cheb_coeffs.extend([float(t.strip()) for t in tokens2])
+
+                elif keyword == 'plog':
+                    # Pressure-dependent Arrhenius parameters
+                    parsed = True
+                    third_body = False # strip optional third-body collider
+                    tokens = tokens[1].split()
+                    pdep_arrhenius.append([float(tokens[0].strip()), Arrhenius(
+                        A=(float(tokens[1].strip()), kunits),
+                        b=float(tokens[2].strip()),
+                        Ea=(float(tokens[3].strip()), energy_units),
+                        parser=self
+                    )])
+                elif len(tokens) >= 2:
+                    # Assume a list of collider efficiencies
+                    parsed = True
+                    for collider, efficiency in zip(tokens[0::2], tokens[1::2]):
+                        efficiencies[collider.strip()] = float(efficiency.strip())
 
             if not parsed:
                 logger.error(self.entry("reaction") + f"Unparsable line: '{line}'.")
-- 
2.43.0


From 2d7c06c0c114aeecc0bd3524fb22e11b43d0694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:24 +0000
Subject: [PATCH 58/62] fix: write default efficiencies and single-range thermo
 and sort elements by mass in yaml2ck

---
 interfaces/cython/cantera/yaml2ck.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/interfaces/cython/cantera/yaml2ck.py b/interfaces/cython/cantera/yaml2ck.py
index b9cc030..e2dbec6 100644
--- a/interfaces/cython/cantera/yaml2ck.py
+++ b/interfaces/cython/cantera/yaml2ck.py
@@ -309,8 +309,9 @@ def build_thermodynamics_text(
                 f"Species '{spec.name}' has more than 2 temperature ranges. Only "
                 "1 or 2 are supported."
             )
+        # Species with a single temperature range use the same coefficients twice
         low_coeffs = input_data["thermo"]["data"][0]
-        high_coeffs = input_data["thermo"]["data"][1]
+        high_coeffs = input_data["thermo"]["data"][-1]
         fmt_data["coeff_1_5"] = five_coeff_line.format(*high_coeffs[:5])
         fmt_data["coeff_6_10"] = five_coeff_line.format(
             *(high_coeffs[5:] + low_coeffs[:3])
@@ -478,14 +479,23 @@ def build_reactions_text(reactions: Iterable[ct.Reaction], species: Iterable[ct.
             raise ValueError(f"Unknown reaction type: '{reac.reaction_type}'")
 
         third = reac.third_body
-        if third is not None and third.name == "M" and len(third.efficiencies):
-            reaction_lines.append(
-                " ".join(
-                    f"{spec}/{value:.3E}/"
-                    for spec, value in reac.third_body.efficiencies.items()
-                    if spec in species_names
+        if third is not None and third.name == "M":
+            efficiencies = dict(third.efficiencies)
+            if third.default_efficiency != 1.0:
+                # The default efficiency is always 1 in Chemkin-format files, so the
+                # efficiencies of all species need to be listed
+                efficiencies = {
+                    spec.name: efficiencies.get(spec.name, third.default_efficiency)
+                    for spec in species
+                }
+            if efficiencies:
+                reaction_lines.append(
+                    " ".join(
+                        f"{spec}/{value:.3E}/"
+                        for spec, value in efficiencies.items()
+                        if spec in species_names
+                    )
                 )
-            )
 
         if reac.duplicate:
             reaction_lines.append("DUPLICATE")
@@ -653,7 +663,7 @@ def convert(
     all_elements = [ct.Element(e) for e in solution.element_names]
     if sort_elements == "alphabetical":
         all_elements = sorted(all_elements, key=lambda e: e.symbol)
-    elif sort_elements == "atomic-mass":
+    elif sort_elements in ("molar-mass", "atomic-mass"):
         all_elements = sorted(all_elements, key=lambda e: e.weight)
     elif sort_elements is not None:
         raise ValueError(
-- 
2.43.0


From f1fe2dfd1afdaa06e53411c21a3a671273a68688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:57 +0000
Subject: [PATCH 59/62] fix: use the dimensions of each rate constant when
 converting Chemkin units

---
 interfaces/cython/cantera/ck2yaml.py | 29 ++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/interfaces/cython/cantera/ck2yaml.py b/interfaces/cython/cantera/ck2yaml.py
index cea9f33..9688b4d 100644
--- a/interfaces/cython/cantera/ck2yaml.py
+++ b/interfaces/cython/cantera/ck2yaml.py
@@ -804,13 +804,17 @@ class Parser:
                                 quantity_units, time_dims=1, time_units='s'):
 
         units = ''
+        if quantity_dims < 0:
+            # Chemically-activated reaction with a single reactant
+            return (f"{quantity_units}^{-quantity_dims}/{length_units}^{-length_dims}"
+                    f"/{time_units}^{time_dims}")
         if length_dims:
             units += length_units
-        if length_dims > 1:
+        if length_dims not in (0, 1):
             units += '^' + str(length_dims)
         if quantity_dims:
             units += '/' + quantity_units
-        if quantity_dims > 1:
+        if quantity_dims not in (0, 1):
             units += '^' + str(quantity_dims)
         if time_dims:
             units += '/' + time_units
@@ -1253,6 +1257,9 @@ class Parser:
                                               quantity_dim, quantity_units)
         klow_units = self.get_rate_constant_units(length_dim + 3, 'cm',
                                                   quantity_dim + 1, quantity_units)
+        # High-pressure limit for chemically-activated reactions
+        khigh_units = self.get_rate_constant_units(length_dim - 3, 'cm',
+                                                   quantity_dim - 1, quantity_units)
 
         # The rest of the first line contains Arrhenius parameters
         arrhenius = Arrhenius(
@@ -1317,13 +1324,11 @@ class Parser:
                     parsed = True
                     tokens = tokens[1].split()
                     high_rate = Arrhenius(
-                        A=(float(tokens[0].strip()), kunits),
+                        A=(float(tokens[0].strip()), khigh_units),
                         b=float(tokens[1].strip()),
                         Ea=(float(tokens[2].strip()), energy_units),
                         parser=self
                     )
-                    # Need to fix units on the base reaction:
-                    arrhenius.A = (arrhenius.A[0], klow_units)
 
                 elif keyword == 'rev':
                     parsed = True
@@ -1337,8 +1342,12 @@ class Parser:
                                                third_body=reaction.third_body,
                                                reversible=False)
 
+                        pStoich = (sum(p[0] for p in reaction.products)
+                                   + (1 if third_body else 0))
+                        krev_units = self.get_rate_constant_units(
+                            3 * (pStoich - 1), 'cm', pStoich - 1, quantity_units)
                         rev_rate = Arrhenius(
-                            A=(float(tokens[0].strip()), klow_units),
+                            A=(float(tokens[0].strip()), krev_units),
                             b=float(tokens[1].strip()),
                             Ea=(float(tokens[2].strip()), energy_units),
                             parser=self
@@ -1431,6 +1440,14 @@ class Parser:
             if not parsed:
                 logger.error(self.entry("reaction") + f"Unparsable line: '{line}'.")
 
+        if reaction.forward_orders:
+            # Units of the rate constant depend on the modified reaction orders
+            order = sum(n for n, spec in reaction.reactants
+                        if spec.label not in reaction.forward_orders)
+            order += sum(reaction.forward_orders.values()) + (1 if third_body else 0)
+            arrhenius.A = (A, self.get_rate_constant_units(
+                3 * (order - 1), 'cm', order - 1, quantity_units))
+
         # Decide which kinetics to keep and store them on the reaction object.
         # At most one of the special cases should be true
         tests = [cheb_coeffs, pdep_arrhenius, low_rate, high_rate, third_body,
-- 
2.43.0


From 444842fce4957ee77f401e9d9ff8b62c140e64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:47 +0000
Subject: [PATCH 60/62] fix: use the coverages of each surface for its first
 species in ImplicitSurfChem

---
 src/kinetics/ImplicitSurfChem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics/ImplicitSurfChem.cpp b/src/kinetics/ImplicitSurfChem.cpp
index 9630738..e2e8565 100644
--- a/src/kinetics/ImplicitSurfChem.cpp
+++ b/src/kinetics/ImplicitSurfChem.cpp
@@ -166,7 +166,7 @@ void ImplicitSurfChem::eval(double time, double* y, double* ydot, double* p)
         double sum = 0.0;
         for (size_t k = 1; k < m_nsp[n]; k++) {
             ydot[k + loc] = m_work[k] * rs0 * m_surf[n]->size(k);
-            sum -= ydot[k];
+            sum -= ydot[k + loc];
         }
         ydot[loc] = sum;
         loc += m_nsp[n];
-- 
2.43.0


From e14c3eccd7ae9345f588d4d044d6e544c13d9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:47 +0000
Subject: [PATCH 61/62] fix: accept the resolution of the volume as convergence
 in Substance::set_TPp

---
 src/tpx/Sub.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tpx/Sub.cpp b/src/tpx/Sub.cpp
index b9c9ea8..c9896dc 100644
--- a/src/tpx/Sub.cpp
+++ b/src/tpx/Sub.cpp
@@ -818,6 +818,10 @@ void Substance::set_TPp(double Temp, double Pressure)
                     BracketSlope(Pressure);
                 } else {
                     dv = (Pressure - P_here)/dpdv;
+                    if (fabs(dv) < 1e-13 * v_here) {
+                        // The pressure cannot be resolved any better in terms of v
+                        break;
+                    }
                 }
             }
         }
-- 
2.43.0


From 7ba9abeb26a3715db6ad0d8b5ba8f770dc8b762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:00 +0000
Subject: [PATCH 62/62] fix: set the composition, not the density, of surfaces
 when resetting ImplicitSurfChem

---
 src/kinetics/ImplicitSurfChem.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/ImplicitSurfChem.cpp b/src/kinetics/ImplicitSurfChem.cpp
index e2e8565..68d6d35 100644
--- a/src/kinetics/ImplicitSurfChem.cpp
+++ b/src/kinetics/ImplicitSurfChem.cpp
@@ -271,12 +271,17 @@ void ImplicitSurfChem::setConcSpecies(const double* const vecConcSpecies)
     for (size_t ip = 0; ip < m_surf.size(); ip++) {
         ThermoPhase* TP_ptr = m_surf[ip];
         kstart = m_specStartIndex[ip];
-        TP_ptr->setConcentrations(vecConcSpecies + kstart);
+        // The site density is fixed, so only the composition is free to change
+        TP_ptr->setMoleFractions(vecConcSpecies + kstart);
     }
     kstart = m_nv;
     for (size_t ip = 0; ip < m_bulkPhases.size(); ip++) {
         ThermoPhase* TP_ptr = m_bulkPhases[ip];
-        TP_ptr->setConcentrations(vecConcSpecies + kstart);
+        if (TP_ptr->isCompressible()) {
+            TP_ptr->setConcentrations(vecConcSpecies + kstart);
+        } else {
+            TP_ptr->setMoleFractions(vecConcSpecies + kstart);
+        }
         kstart += TP_ptr->nSpecies();
     }
 }
-- 
2.43.0


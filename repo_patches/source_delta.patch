From 968a35cc93a2921c2a64f4fda109578cee7ebff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 01/32] fix: Array2D::appendColumn writes the appended column

The loop assigned element (m_ncols, m), which is outside the matrix, instead of
(m, m_ncols - 1). The new column stayed zero and other elements (or memory past
the end of the storage) were overwritten.
---
 src/base/Array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/Array.cpp b/src/base/Array.cpp
index 9d0c346..93d84a1 100644
--- a/src/base/Array.cpp
+++ b/src/base/Array.cpp
@@ -56,7 +56,7 @@ void Array2D::appendColumn(const vector<double>& c)
     m_ncols++;
     m_data.resize(m_nrows * m_ncols);
     for (size_t m = 0; m < m_nrows; m++) {
-        value(m_ncols, m) = c[m];
+        value(m, m_ncols - 1) = c[m];
     }
 }
 
@@ -65,7 +65,7 @@ void Array2D::appendColumn(const double* const c)
     m_ncols++;
     m_data.resize(m_nrows * m_ncols);
     for (size_t m = 0; m < m_nrows; m++) {
-        value(m_ncols, m) = c[m];
+        value(m, m_ncols - 1) = c[m];
     }
 }
 
-- 
2.43.0


From e26955f62d748c6772a628724bc17d8496a09e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 02/32] fix: BandMatrix elements outside the band always read
 as zero

The non-const accessors return a reference to a shared placeholder for elements
outside the band. A value assigned through it was returned for every later access
outside the band.
---
 src/numerics/BandMatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/numerics/BandMatrix.cpp b/src/numerics/BandMatrix.cpp
index 110cd5d..5cf695c 100644
--- a/src/numerics/BandMatrix.cpp
+++ b/src/numerics/BandMatrix.cpp
@@ -149,6 +149,7 @@ double& BandMatrix::value(size_t i, size_t j)
 {
     m_factored = false;
     if (i + m_ku < j || i > j + m_kl) {
+        m_zero = 0.0; // discard values previously assigned outside the band
         return m_zero;
     }
     return data[index(i,j)];
-- 
2.43.0


From 9943a05c0cbeb726be4bbbe3b55a3ec7e6cc786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 03/32] fix: PlogRate and ChebyshevRate kept values cached for
 the previous parameters

PlogRate::setRates, ChebyshevRate::setData and ChebyshevRate::setLimits did not
discard the values cached for the last pressure, so that evaluating the modified
rate at an unchanged pressure returned a result based on the old parameters (or
indices).
---
 src/kinetics/ChebyshevRate.cpp | 2 ++
 src/kinetics/PlogRate.cpp      | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/kinetics/ChebyshevRate.cpp b/src/kinetics/ChebyshevRate.cpp
index 3fcd72c..f076a29 100644
--- a/src/kinetics/ChebyshevRate.cpp
+++ b/src/kinetics/ChebyshevRate.cpp
@@ -109,6 +109,7 @@ void ChebyshevRate::setLimits(double Tmin, double Tmax, double Pmin, double Pmax
     Tmax_ = Tmax;
     Pmin_ = Pmin;
     Pmax_ = Pmax;
+    m_log10P = NAN; // force update of values which depend on the pressure range
 }
 
 void ChebyshevRate::setData(const Array2D& coeffs)
@@ -121,6 +122,7 @@ void ChebyshevRate::setData(const Array2D& coeffs)
         m_coeffs = Array2D(1, 1, NAN);
     }
     dotProd_.resize(m_coeffs.nRows());
+    m_log10P = NAN; // force update of values which depend on coefficients
 }
 
 void ChebyshevRate::getParameters(AnyMap& rateNode) const
diff --git a/src/kinetics/PlogRate.cpp b/src/kinetics/PlogRate.cpp
index d8cd0d9..4871758 100644
--- a/src/kinetics/PlogRate.cpp
+++ b/src/kinetics/PlogRate.cpp
@@ -94,6 +94,10 @@ void PlogRate::setRates(const std::multimap<double, ArrheniusRate>& rates)
     size_t j = 0;
     rates_.clear();
     pressures_.clear();
+    // discard the interpolation interval cached for the previous set of rates
+    logP_ = -1000;
+    logP1_ = 1000;
+    logP2_ = -1000;
     m_valid = !rates.empty();
     rates_.reserve(rates.size());
     // Insert intermediate pressures
-- 
2.43.0


From 2adea32303f287586fb640b33b98cd3d55827a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:43 +0000
Subject: [PATCH 04/32] fix: ConstCpPoly::resetHf298 restores the original
 enthalpy

The original value was never recorded, so a reset set the enthalpy at the
reference temperature to zero.
---
 src/thermo/ConstCpPoly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/ConstCpPoly.cpp b/src/thermo/ConstCpPoly.cpp
index 04f3c54..9e9cea1 100644
--- a/src/thermo/ConstCpPoly.cpp
+++ b/src/thermo/ConstCpPoly.cpp
@@ -32,6 +32,7 @@ void ConstCpPoly::setParameters(double t0, double h0, double s0, double cp0)
     m_logt0 = log(m_t0);
     m_cp0_R = cp0 / GasConstant;
     m_h0_R = h0 / GasConstant;
+    m_h0_R_orig = m_h0_R;
     m_s0_R = s0 / GasConstant;
 }
 
-- 
2.43.0


From d66fcf3e39b7d093b22c5eb7ac6fe457d86505da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:21 +0000
Subject: [PATCH 05/32] fix: apply the scale factor of temperature-type units
 when converting activation energies

---
 src/base/Units.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index fd1566d..57d49e5 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -525,7 +525,7 @@ void UnitSystem::setDefaultActivationEnergy(const string& e_units)
     if (u.convertible(Units("J/kmol"))) {
         m_activation_energy_factor = u.factor();
     } else if (u.convertible(knownUnits.at("K"))) {
-        m_activation_energy_factor = GasConstant;
+        m_activation_energy_factor = u.factor() * GasConstant;
     } else if (u.convertible(knownUnits.at("eV"))) {
         m_activation_energy_factor = u.factor() * Avogadro;
     } else {
@@ -713,7 +713,7 @@ double UnitSystem::convertActivationEnergyTo(double value,
     if (dest.convertible(Units("J/kmol"))) {
         return value * m_activation_energy_factor / dest.factor();
     } else if (dest.convertible(knownUnits.at("K"))) {
-        return value * m_activation_energy_factor / GasConstant;
+        return value * m_activation_energy_factor / (GasConstant * dest.factor());
     } else if (dest.convertible(knownUnits.at("eV"))) {
         return value * m_activation_energy_factor / (Avogadro * dest.factor());
     } else {
@@ -728,7 +728,7 @@ double UnitSystem::convertActivationEnergyFrom(double value, const string& src)
     if (usrc.convertible(Units("J/kmol"))) {
         return value * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("K"))) {
-        return value * GasConstant / m_activation_energy_factor;
+        return value * GasConstant * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("eV"))) {
         return value * Avogadro * usrc.factor() / m_activation_energy_factor;
     } else {
-- 
2.43.0


From e2f3930abd495e380870526bc54e06373cb3769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:29 +0000
Subject: [PATCH 06/32] fix: MassFlowController::setMassFlowRate must not
 delete a function it does not own, nor keep it

---
 src/zeroD/flowControllers.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/zeroD/flowControllers.cpp b/src/zeroD/flowControllers.cpp
index b58337c..c361006 100644
--- a/src/zeroD/flowControllers.cpp
+++ b/src/zeroD/flowControllers.cpp
@@ -12,9 +12,7 @@ namespace Cantera
 
 void MassFlowController::setMassFlowRate(double mdot)
 {
-    if (m_tfunc) {
-        delete m_tfunc;
-    }
+    m_tfunc = nullptr; // not owned: the caller keeps ownership of the function
     m_coeff = mdot;
 }
 
-- 
2.43.0


From 0810893f7715f9bfbade90bb60ca527542775527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 07/32] fix: Periodic1 is periodic for negative arguments

---
 include/cantera/numerics/Func1.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cantera/numerics/Func1.h b/include/cantera/numerics/Func1.h
index 44db9f5..5198857 100644
--- a/include/cantera/numerics/Func1.h
+++ b/include/cantera/numerics/Func1.h
@@ -831,8 +831,7 @@ public:
     }
 
     double eval(double t) const override {
-        int np = int(t/m_c);
-        double time = t - np*m_c;
+        double time = t - std::floor(t/m_c)*m_c;
         return m_f1->eval(time);
     }
 };
-- 
2.43.0


From b755fad7c39fc3a67911db4b94646f3ebc75d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 08/32] fix: derivative of linear Tabulated1 is zero before the
 first tabulated point

---
 src/numerics/Func1.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index d4b93e1..1b1589c 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -389,7 +389,9 @@ shared_ptr<Func1> Tabulated1::derivative() const {
     vector<double> dvec;
     size_t siz = m_tvec.size();
     if (m_isLinear) {
-        // piece-wise continuous derivative
+        // piece-wise continuous derivative; zero outside of the tabulated range
+        tvec.push_back(m_tvec[0]);
+        dvec.push_back(0.);
         if (siz>1) {
             for (size_t i=1; i<siz; i++) {
                 double d = (m_fvec[i] - m_fvec[i-1]) /
-- 
2.43.0


From 71fd0297f540ad5af97055de7f734654ac3dbce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 09/32] fix: newCompositeFunction merges powers only if valid
 for negative arguments

---
 src/numerics/Func1.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index 1b1589c..5cd7454 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -745,7 +745,8 @@ shared_ptr<Func1> newCompositeFunction(shared_ptr<Func1> f1, shared_ptr<Func1> f
     if (isPow(f1) && f1->c() == 0.0) {
         return make_shared<Const1>(1.);
     }
-    if (isPow(f1) && isPow(f2)) {
+    if (isPow(f1) && isPow(f2) && f1->c() == std::floor(f1->c())) {
+        // only valid for all arguments if the outer exponent is an integer
         return make_shared<Pow1>(f1->c() * f2->c());
     }
     return make_shared<Composite1>(f1, f2);
-- 
2.43.0


From 9093859c305e608b531924bbb30754f5dccbff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 10/32] fix: do not simplify sums and differences with a
 vanishing multiple by dividing by zero

---
 src/numerics/Func1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index 5cd7454..c276914 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -587,6 +587,9 @@ pair<bool, double> isProportional(
         }
         return {false, 0.};
     }
+    if (f1->c() == 0.) {
+        return {false, 0.};  // a null function is not a basis for other functions
+    }
     if (tc1 && !tc2) {
         if (f2->isIdentical((f1->func1_shared()))) {
             return {true, 1. / f1->c()};
-- 
2.43.0


From f2799e264148e9d93ef77002ab675142ff8e83e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:45 +0000
Subject: [PATCH 11/32] fix: restore the composition before the pressure in
 Phase::restoreState

Phases whose native state contains the pressure instead of the density evaluate their
density when the pressure is set. With the composition restored last, molten-salt and
other standard-state based phases were left with a density for the previous composition.
---
 src/thermo/Phase.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/thermo/Phase.cpp b/src/thermo/Phase.cpp
index 86fc84b..e4a85aa 100644
--- a/src/thermo/Phase.cpp
+++ b/src/thermo/Phase.cpp
@@ -272,18 +272,21 @@ void Phase::restoreState(size_t lenstate, const double* state)
 
     auto native = nativeState();
     setTemperature(state[native.at("T")]);
-    if (isCompressible()) {
-        setDensity(state[native.at("D")]);
-    } else {
-        setPressure(state[native.at("P")]);
-    }
 
+    // The composition needs to be set first, since the density of phases whose state
+    // is specified by the pressure is evaluated for the composition at that point
     if (native.count("X")) {
         setMoleFractions_NoNorm(state + native["X"]);
     } else if (native.count("Y")) {
         setMassFractions_NoNorm(state + native["Y"]);
     }
     compositionChanged();
+
+    if (isCompressible()) {
+        setDensity(state[native.at("D")]);
+    } else {
+        setPressure(state[native.at("P")]);
+    }
 }
 
 void Phase::setMoleFractions(const double* const x)
-- 
2.43.0


From 9ad14d18f7844b577f90d753118d8f6f992bd7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:32 +0000
Subject: [PATCH 12/32] fix: BulkKinetics updates standard state properties if
 only the composition changes

---
 src/kinetics/BulkKinetics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 0b6ce9b..c459d34 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -462,8 +462,9 @@ void BulkKinetics::updateROP()
     double rho = thermo().density();
     int statenum = thermo().stateMFNumber();
 
-    if (last.state1 != T || last.state2 != rho) {
-        // Update properties that are independent of the composition
+    if (last.state1 != T || last.state2 != rho || last.stateNum != statenum) {
+        // Update standard state properties. These are evaluated at the current pressure,
+        // which depends on the composition if temperature and density are held constant
         thermo().getStandardChemPotentials(m_grt.data());
         fill(m_delta_gibbs0.begin(), m_delta_gibbs0.end(), 0.0);
         double logStandConc = log(thermo().standardConcentration());
-- 
2.43.0


From 4e8808e8fb01f39d83f8c4b5c1819ab7c33734ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:08 +0000
Subject: [PATCH 13/32] fix: MultiPhase::setPhaseMoleFractions stored
 unnormalized mole fractions

The phase normalizes the given mole fractions while the mixture kept them as
given, so that species moles, element totals and charges disagreed with the
phase whenever the values did not sum to one.
---
 src/equil/MultiPhase.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index bb980b5..45d7166 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -350,10 +350,8 @@ void MultiPhase::setPhaseMoleFractions(const size_t n, const double* const x)
     }
     ThermoPhase* p = m_phase[n];
     p->setState_TPX(m_temp, m_press, x);
-    size_t istart = m_spstart[n];
-    for (size_t k = 0; k < p->nSpecies(); k++) {
-        m_moleFractions[istart+k] = x[k];
-    }
+    // the phase normalizes its mole fractions
+    p->getMoleFractions(&m_moleFractions[m_spstart[n]]);
 }
 
 void MultiPhase::setMolesByName(const Composition& xMap)
-- 
2.43.0


From 05a2a3bca095dce33744eb7cb917c41391a6eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:49 +0000
Subject: [PATCH 14/32] fix: MultiPhase::setState_TPMoles did not bring all
 phases to the new state

setMoles only sets the state of non-empty phases with several species, so that
volume() used the other phases at their previous temperature and pressure, and
tempOK() kept the answer for the previous temperature.
---
 src/equil/MultiPhase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index 45d7166..d61a77f 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -440,6 +440,7 @@ void MultiPhase::setState_TPMoles(const double T, const double Pres, const doubl
     m_temp = T;
     m_press = Pres;
     setMoles(n);
+    updatePhases();
 }
 
 void MultiPhase::getElemAbundances(double* elemAbundances) const
-- 
2.43.0


From 624a8660fc62ce68fc0e5db2eed8f8a3e20b978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:47 +0000
Subject: [PATCH 15/32] fix: MultiPhase::volume used phases that were not at
 the state of the mixture

All other extensive properties update the phases first. After a phase object was
changed (with uploadMoleFractionsFromPhases, or by another mixture sharing it),
the volume was evaluated at the pressure and composition found there.
---
 src/equil/MultiPhase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index d61a77f..2506105 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -476,6 +476,9 @@ void MultiPhase::calcElemAbundances() const
 double MultiPhase::volume() const
 {
     double sum = 0;
+    if (m_init) {
+        updatePhases();
+    }
     for (size_t i = 0; i < nPhases(); i++) {
         double vol = 1.0/m_phase[i]->molarDensity();
         sum += m_moles[i] * vol;
-- 
2.43.0


From 51e3e05dba3e64668995a180d8d500da6f8243e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:28 +0000
Subject: [PATCH 16/32] fix: LatticePhase partial molar enthalpies and standard
 chemical potentials lacked the pressure term

---
 src/thermo/LatticePhase.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/thermo/LatticePhase.cpp b/src/thermo/LatticePhase.cpp
index 4061291..c207a5f 100644
--- a/src/thermo/LatticePhase.cpp
+++ b/src/thermo/LatticePhase.cpp
@@ -107,7 +107,10 @@ void LatticePhase::getChemPotentials(double* mu) const
 void LatticePhase::getPartialMolarEnthalpies(double* hbar) const
 {
     const vector<double>& _h = enthalpy_RT_ref();
-    scale(_h.begin(), _h.end(), hbar, RT());
+    double delta_p = m_Pcurrent - m_Pref;
+    for (size_t k = 0; k < m_kk; k++) {
+        hbar[k] = RT() * _h[k] + delta_p * m_speciesMolarVolume[k];
+    }
 }
 
 void LatticePhase::getPartialMolarEntropies(double* sbar) const
@@ -134,8 +137,7 @@ void LatticePhase::getPartialMolarVolumes(double* vbar) const
 
 void LatticePhase::getStandardChemPotentials(double* mu0) const
 {
-    const vector<double>& gibbsrt = gibbs_RT_ref();
-    scale(gibbsrt.begin(), gibbsrt.end(), mu0, RT());
+    getPureGibbs(mu0);
 }
 
 void LatticePhase::getPureGibbs(double* gpure) const
@@ -233,7 +235,8 @@ bool LatticePhase::addSpecies(shared_ptr<Species> spec)
         m_g0_RT.push_back(0.0);
         m_cp0_R.push_back(0.0);
         m_s0_R.push_back(0.0);
-        double mv = 1.0 / m_site_density;
+        // without a site density, the species are not assigned any volume
+        double mv = (m_site_density > 0.0) ? 1.0 / m_site_density : 0.0;
         if (spec->input.hasKey("equation-of-state")) {
             auto& eos = spec->input["equation-of-state"].getMapWhere(
                 "model", "constant-volume");
-- 
2.43.0


From 071e09ba9e2db75170757de098e6a0c437f96e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:28 +0000
Subject: [PATCH 17/32] fix: LatticePhase::setSiteDensity left the density of
 the previous site density

---
 src/thermo/LatticePhase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/LatticePhase.cpp b/src/thermo/LatticePhase.cpp
index c207a5f..6595e06 100644
--- a/src/thermo/LatticePhase.cpp
+++ b/src/thermo/LatticePhase.cpp
@@ -267,6 +267,7 @@ void LatticePhase::setSiteDensity(double sitedens)
         }
         m_speciesMolarVolume[k] = 1.0 / m_site_density;
     }
+    calcDensity();
 }
 
 void LatticePhase::_updateThermo() const
-- 
2.43.0


From 5ae0b70760dfd97886ad2848458badeeba863943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:06 +0000
Subject: [PATCH 18/32] fix: Re-evaluate gas transport properties after species
 are added

---
 src/transport/GasTransport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transport/GasTransport.cpp b/src/transport/GasTransport.cpp
index 02e0f70..599d806 100644
--- a/src/transport/GasTransport.cpp
+++ b/src/transport/GasTransport.cpp
@@ -30,6 +30,8 @@ void GasTransport::update_T()
     if (m_thermo->nSpecies() != m_nsp) {
         // Rebuild data structures if number of species has changed
         init(m_thermo, m_mode);
+        // all temperature-dependent properties need to be evaluated for the new species
+        m_temp = Undef;
     }
 
     double T = m_thermo->temperature();
-- 
2.43.0


From 0eb28d3e5b6cab59dff3813a19db969c1dcef931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:06 +0000
Subject: [PATCH 19/32] fix: Use current mole fractions in MultiTransport
 fluxes

---
 src/transport/MultiTransport.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index fb98f4e..f4954a5 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -175,8 +175,9 @@ void MultiTransport::getSpeciesFluxes(size_t ndim, const double* const grad_T,
                                       size_t ldx, const double* const grad_X,
                                       size_t ldf, double* const fluxes)
 {
-    // update the binary diffusion coefficients if necessary
+    // update the mole fractions and the binary diffusion coefficients
     update_T();
+    update_C();
     updateDiff_T();
 
     // If any component of grad_T is non-zero, then get the
@@ -281,10 +282,10 @@ void MultiTransport::getMassFluxes(const double* state1, const double* state2,
         x3[n] = 0.5*(x1[n] + x2[n]);
     }
     m_thermo->setState_TPX(t, p, x3);
-    m_thermo->getMoleFractions(m_molefracs.data());
 
-    // update the binary diffusion coefficients if necessary
+    // update the mole fractions and the binary diffusion coefficients
     update_T();
+    update_C();
     updateDiff_T();
 
     // If there is a temperature gradient, then get the
-- 
2.43.0


From c9c1620a3bfe2c6457648135cf9aa2ec6bff4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:15 +0000
Subject: [PATCH 20/32] fix: Keep self-diffusion coefficients of MultiTransport
 separate from binary ones

---
 include/cantera/transport/MultiTransport.h |  4 ++++
 src/transport/MultiTransport.cpp           | 17 +++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/cantera/transport/MultiTransport.h b/include/cantera/transport/MultiTransport.h
index 937813b..373dbc9 100644
--- a/include/cantera/transport/MultiTransport.h
+++ b/include/cantera/transport/MultiTransport.h
@@ -128,6 +128,10 @@ protected:
     //! Dense matrix for cstar
     DenseMatrix m_cstar;
 
+    //! Binary diffusion coefficients used to evaluate the L matrix. Contains the
+    //! self-diffusion coefficients calculated from the viscosity on the diagonal.
+    DenseMatrix m_bdiff_L;
+
     vector<double> m_cinternal;
 
     vector<double> m_sqrt_eps_k;
diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index f4954a5..2590938 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -456,9 +456,10 @@ void MultiTransport::updateThermal_T()
         m_rotrelax[k] = std::max(1.0,m_zrot[k]) * m_frot_298[k]/Frot(tr, sqtr);
     }
 
+    m_bdiff_L = m_bdiff;
     double c = 1.2*GasConstant*m_temp;
     for (size_t k = 0; k < m_nsp; k++) {
-        m_bdiff(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
+        m_bdiff_L(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
     }
 
     // Calculate the internal heat capacities by subtracting off the translational contributions
@@ -493,15 +494,15 @@ void MultiTransport::eval_L0000(const double* const x)
     for (size_t i = 0; i < m_nsp; i++) {
         // subtract-off the k=i term to account for the first delta
         // function in Eq. (12.121)
-        sum = -x[i]/m_bdiff(i,i);
+        sum = -x[i]/m_bdiff_L(i,i);
         for (size_t k = 0; k < m_nsp; k++) {
-            sum += x[k]/m_bdiff(i,k);
+            sum += x[k]/m_bdiff_L(i,k);
         }
 
         sum /= m_mw[i];
         for (size_t j = 0; j != m_nsp; ++j) {
             m_Lmatrix(i,j) = prefactor * x[j]
-                             * (m_mw[j] * sum + x[i]/m_bdiff(i,j));
+                             * (m_mw[j] * sum + x[i]/m_bdiff_L(i,j));
         }
         // diagonal term is zero
         m_Lmatrix(i,i) = 0.0;
@@ -518,7 +519,7 @@ void MultiTransport::eval_L0010(const double* const x)
         for (size_t i = 0; i < m_nsp; i++) {
             m_Lmatrix(i,j + m_nsp) = - prefactor * x[i] * xj * m_mw[i] *
                                      (1.2 * m_cstar(j,i) - 1.0) /
-                                     ((wj + m_mw[i]) * m_bdiff(j,i));
+                                     ((wj + m_mw[i]) * m_bdiff_L(j,i));
 
             // the next term is independent of "j";
             // need to do it for the "j,j" term
@@ -554,7 +555,7 @@ void MultiTransport::eval_L1010(const double* x)
         double sum = 0.0;
         for (size_t i = 0; i < m_nsp; i++) {
             double sumwij = m_mw[i] + m_mw[j];
-            double term1 = m_bdiff(i,j) * sumwij*sumwij;
+            double term1 = m_bdiff_L(i,j) * sumwij*sumwij;
             double term2 = fourmj*m_astar(i,j)*(1.0 + fiveover3pi*
                 (constant3 + (m_crot[i]/m_rotrelax[i]))); //  see Eq. (12.125)
 
@@ -582,7 +583,7 @@ void MultiTransport::eval_L1001(const double* x)
             for (size_t i = 0; i < m_nsp; i++) {
                 // see Eq. (12.127)
                 m_Lmatrix(i+m_nsp,j+2*m_nsp) = constant * m_astar(j,i) * x[i] /
-                                          ((m_mw[j] + m_mw[i]) * m_bdiff(j,i));
+                                          ((m_mw[j] + m_mw[i]) * m_bdiff_L(j,i));
                 sum += m_Lmatrix(i+m_nsp,j+2*m_nsp);
             }
             m_Lmatrix(j+m_nsp,j+2*m_nsp) += sum;
@@ -632,7 +633,7 @@ void MultiTransport::eval_L0101(const double* x)
             double sum = 0.0;
             for (size_t k = 0; k < m_nsp; k++) {
                 // see Eq. (12.131)
-                double diff_int = m_bdiff(i,k);
+                double diff_int = m_bdiff_L(i,k);
                 m_Lmatrix(k+2*m_nsp,i+2*m_nsp) = 0.0;
                 sum += x[k]/diff_int;
                 if (k != i) {
-- 
2.43.0


From f3b0d1dd8ebd595dbdd2dbec491eff1004b7a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:41 +0000
Subject: [PATCH 21/32] fix: Detect all temperature changes in MultiTransport
 thermal properties

---
 src/transport/MultiTransport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index 2590938..ddda74a 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -399,6 +399,7 @@ void MultiTransport::update_T()
     GasTransport::update_T();
     // temperature has changed, so polynomial fits will need to be
     // redone, and the L matrix reevaluated.
+    m_thermal_tlast = Undef;
     m_lmatrix_soln_ok = false;
     m_l0000_ok = false;
 }
@@ -422,6 +423,7 @@ void MultiTransport::update_C()
 
 void MultiTransport::updateThermal_T()
 {
+    update_T();
     if (m_thermal_tlast == m_thermo->temperature()) {
         return;
     }
-- 
2.43.0


From 765726a8f5bf50b98ef4d5df72d83433b1e105ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:21 +0000
Subject: [PATCH 22/32] fix: Remove overflowing unused copy of gradients in
 MultiTransport::getSpeciesFluxes

---
 src/transport/MultiTransport.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index ddda74a..5fbd6d8 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -221,10 +221,6 @@ void MultiTransport::getSpeciesFluxes(size_t ndim, const double* const grad_T,
     for (size_t j = 0; j < m_nsp; j++) {
         m_aa(jmax,j) = y[j];
     }
-    vector<double> gsave(ndim), grx(ldx*m_nsp);
-    for (size_t n = 0; n < ldx*ndim; n++) {
-        grx[n] = grad_X[n];
-    }
 
     // copy grad_X to fluxes
     for (size_t n = 0; n < ndim; n++) {
-- 
2.43.0


From 0c5614e446b33b8002c70000e93fa957f99cca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:10 +0000
Subject: [PATCH 23/32] fix: Resize for added species before reading mole
 fractions in getMultiDiffCoeffs

update_C() writes one mole fraction per species of the phase, so it has to
come after update_T(), which reallocates the arrays when species were added.
---
 src/transport/MultiTransport.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index 5fbd6d8..a33a404 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -357,13 +357,13 @@ void MultiTransport::getMultiDiffCoeffs(const size_t ld, double* const d)
 {
     double p = pressure_ig();
 
-    // update the mole fractions
-    update_C();
-
     // update the binary diffusion coefficients
     update_T();
     updateThermal_T();
 
+    // update the mole fractions
+    update_C();
+
     // evaluate L0000 if the temperature or concentrations have
     // changed since it was last evaluated.
     if (!m_l0000_ok) {
-- 
2.43.0


From 701871ccc15a30fba9829d05df9879fd58fc6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:37 +0000
Subject: [PATCH 24/32] fix: Rate of change of surface species moles in
 mole-based reactors

The production rate times the surface area is the rate of change of the moles
themselves; it was divided by the number of sites per species in addition, so
that sites were not conserved for species occupying more than one site and the
result disagreed with addSurfaceJacobian.
---
 src/zeroD/MoleReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 4859a99..afe3386 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -70,7 +70,7 @@ void MoleReactor::evalSurfaces(double* LHS, double* RHS, double* sdot)
         S->syncState();
         kin->getNetProductionRates(&m_work[0]);
         for (size_t k = 0; k < nk; k++) {
-            RHS[loc + k] = m_work[k] * wallarea / surf->size(k);
+            RHS[loc + k] = m_work[k] * wallarea;
         }
         loc += nk;
 
-- 
2.43.0


From 77b6a023a49795aa496868ec56a0363e9093235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:37 +0000
Subject: [PATCH 25/32] fix: Disabling reactor chemistry drops the stored
 production rates

eval() only refreshes m_wdot while chemistry is enabled but always uses it, so
switching chemistry off after an evaluation kept reacting at frozen rates.
---
 include/cantera/zeroD/Reactor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cantera/zeroD/Reactor.h b/include/cantera/zeroD/Reactor.h
index 5266687..ccffaf2 100644
--- a/include/cantera/zeroD/Reactor.h
+++ b/include/cantera/zeroD/Reactor.h
@@ -68,6 +68,10 @@ public:
 
     void setChemistry(bool cflag=true) override {
         m_chem = cflag;
+        if (!m_chem) {
+            // discard rates from an earlier evaluation with chemistry enabled
+            m_wdot.assign(m_wdot.size(), 0.0);
+        }
     }
 
     //! Returns `true` if changes in the reactor composition due to chemical reactions
-- 
2.43.0


From 96b65887339d053790ba2e430115596730030587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 26/32] fix: Keep the temperature of reactors with the energy
 equation disabled

updateState() took the temperature from the phase object, which may hold the
state of another reactor sharing the phase.
---
 src/zeroD/ConstPressureMoleReactor.cpp | 4 ++++
 src/zeroD/ConstPressureReactor.cpp     | 4 ++++
 src/zeroD/MoleReactor.cpp              | 4 ++++
 src/zeroD/Reactor.cpp                  | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 00c6261..d514505 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -48,6 +48,10 @@ void ConstPressureMoleReactor::updateState(double* y)
     if (m_energy) {
         m_thermo->setState_HP(y[0] / m_mass, m_pressure);
     } else {
+        // The phase may be shared with other reactors: recover this reactor's own
+        // temperature
+        m_thermo->restoreState(m_state);
+        m_thermo->setMolesNoTruncate(y + m_sidx);
         m_thermo->setPressure(m_pressure);
     }
     m_vol = m_mass / m_thermo->density();
diff --git a/src/zeroD/ConstPressureReactor.cpp b/src/zeroD/ConstPressureReactor.cpp
index c584688..019d9a0 100644
--- a/src/zeroD/ConstPressureReactor.cpp
+++ b/src/zeroD/ConstPressureReactor.cpp
@@ -52,6 +52,10 @@ void ConstPressureReactor::updateState(double* y)
     if (m_energy) {
         m_thermo->setState_HP(y[1]/m_mass, m_pressure);
     } else {
+        // The phase may be shared with other reactors: recover this reactor's own
+        // temperature
+        m_thermo->restoreState(m_state);
+        m_thermo->setMassFractions_NoNorm(y+2);
         m_thermo->setPressure(m_pressure);
     }
     m_vol = m_mass / m_thermo->density();
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index afe3386..f793868 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -216,6 +216,10 @@ void MoleReactor::updateState(double* y)
         }
         m_thermo->setState_TD(TT.second, m_mass / m_vol);
     } else {
+        // The phase may be shared with other reactors: recover this reactor's own
+        // temperature
+        m_thermo->restoreState(m_state);
+        m_thermo->setMolesNoTruncate(y + m_sidx);
         m_thermo->setDensity(m_mass / m_vol);
     }
     updateConnected(true);
diff --git a/src/zeroD/Reactor.cpp b/src/zeroD/Reactor.cpp
index 7fac0ec..45d7650 100644
--- a/src/zeroD/Reactor.cpp
+++ b/src/zeroD/Reactor.cpp
@@ -166,6 +166,10 @@ void Reactor::updateState(double* y)
         }
         m_thermo->setState_TD(TT.second, m_mass / m_vol);
     } else {
+        // The phase may be shared with other reactors: recover this reactor's own
+        // temperature
+        m_thermo->restoreState(m_state);
+        m_thermo->setMassFractions_NoNorm(y+3);
         m_thermo->setDensity(m_mass/m_vol);
     }
 
-- 
2.43.0


From 8dbb68a369a5b076d2a79820bc519904a787c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:41 +0000
Subject: [PATCH 27/32] fix: Outflow of species from mole-based reactors

FlowDevice::outletSpeciesMassFlowRate takes the index of a species in the
downstream reactor. For the outlets of a reactor the upstream composition is its
own, so with different species sets downstream the wrong species (or none) were
removed.
---
 src/zeroD/ConstPressureMoleReactor.cpp         | 3 ++-
 src/zeroD/IdealGasConstPressureMoleReactor.cpp | 3 ++-
 src/zeroD/IdealGasMoleReactor.cpp              | 3 ++-
 src/zeroD/MoleReactor.cpp                      | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index d514505..b1eb016 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -68,6 +68,7 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
     m_thermo->restoreState(m_state);
 
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -90,7 +91,7 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
         dHdt -= outlet->massFlowRate() * m_enthalpy;
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasConstPressureMoleReactor.cpp b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
index 757a6cb..727f99e 100644
--- a/src/zeroD/IdealGasConstPressureMoleReactor.cpp
+++ b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
@@ -73,6 +73,7 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
 
     m_thermo->getPartialMolarEnthalpies(&m_hk[0]);
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -96,7 +97,7 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
             // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasMoleReactor.cpp b/src/zeroD/IdealGasMoleReactor.cpp
index 5586a7c..61fd016 100644
--- a/src/zeroD/IdealGasMoleReactor.cpp
+++ b/src/zeroD/IdealGasMoleReactor.cpp
@@ -104,6 +104,7 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
 
     m_thermo->getPartialMolarIntEnergies(&m_uk[0]);
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -127,7 +128,7 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
             // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
         double mdot = outlet->massFlowRate();
         mcvdTdt -= mdot * m_pressure * m_vol / m_mass; // flow work
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index f793868..3a64c04 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -236,6 +236,7 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
     evalSurfaces(LHS + m_nsp + m_sidx, RHS + m_nsp + m_sidx, m_sdot.data());
     // inverse molecular weights for conversion
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
     // volume equation
     RHS[1] = m_vdot;
 
@@ -262,7 +263,7 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
     for (auto outlet : m_outlet) {
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
         // energy update based on mass flow
         double mdot = outlet->massFlowRate();
-- 
2.43.0


From a1db4bc3b8f3bc8c759fd3fab80273ee04c80fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:19 +0000
Subject: [PATCH 28/32] fix: Scaled rate constant derivatives compare with the
 unscaled rate constant

Numerical derivatives evaluated the perturbed rate constant without the reaction's
multiplier and compared it with the rate constant scaled by it.
---
 src/kinetics/BulkKinetics.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index c459d34..ce96978 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -603,7 +603,7 @@ void BulkKinetics::process_ddT(const vector<double>& in, double* drop)
     // apply temperature derivative
     copy(in.begin(), in.end(), drop);
     for (auto& rates : m_bulk_rates) {
-        rates->processRateConstants_ddT(drop, m_rfn.data(), m_jac_rtol_delta);
+        rates->processRateConstants_ddT(drop, m_kf0.data(), m_jac_rtol_delta);
     }
 }
 
@@ -612,7 +612,7 @@ void BulkKinetics::process_ddP(const vector<double>& in, double* drop)
     // apply pressure derivative
     copy(in.begin(), in.end(), drop);
     for (auto& rates : m_bulk_rates) {
-        rates->processRateConstants_ddP(drop, m_rfn.data(), m_jac_rtol_delta);
+        rates->processRateConstants_ddP(drop, m_kf0.data(), m_jac_rtol_delta);
     }
 }
 
@@ -645,7 +645,7 @@ void BulkKinetics::process_ddC(StoichManagerN& stoich, const vector<double>& in,
         for (auto& rates : m_bulk_rates) {
             // processing step assigns zeros to entries not dependent on M
             rates->processRateConstants_ddM(
-                outM.data(), m_rfn.data(), m_jac_rtol_delta);
+                outM.data(), m_kf0.data(), m_jac_rtol_delta);
         }
         out += outM;
     }
@@ -684,7 +684,7 @@ Eigen::SparseMatrix<double> BulkKinetics::calculateCompositionDerivatives(
         for (auto& rates : m_bulk_rates) {
             // processing step does not modify entries not dependent on M
             rates->processRateConstants_ddM(
-                outV.data(), m_rfn.data(), m_jac_rtol_delta, false);
+                outV.data(), m_kf0.data(), m_jac_rtol_delta, false);
         }
     }
 
-- 
2.43.0


From 8f467d1cc6c126cdd36ac6d9d22a7d8d2a723ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:20 +0000
Subject: [PATCH 29/32] fix: Count third bodies once in composition derivatives
 with legacy rate constants

With legacy rate constants, getFwdRateConstants includes the third-body
concentration, which calculateCompositionDerivatives applies as well.
---
 src/kinetics/BulkKinetics.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index ce96978..960f483 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -390,7 +390,8 @@ Eigen::SparseMatrix<double> BulkKinetics::fwdRatesOfProgress_ddX()
 
     // forward reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     return calculateCompositionDerivatives(m_reactantStoich, rop_rates);
 }
 
@@ -400,7 +401,8 @@ Eigen::SparseMatrix<double> BulkKinetics::revRatesOfProgress_ddX()
 
     // reverse reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     applyEquilibriumConstants(rop_rates.data());
     return calculateCompositionDerivatives(m_revProductStoich, rop_rates);
 }
@@ -411,7 +413,8 @@ Eigen::SparseMatrix<double> BulkKinetics::netRatesOfProgress_ddX()
 
     // forward reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     auto jac = calculateCompositionDerivatives(m_reactantStoich, rop_rates);
 
     // reverse reaction rate coefficients
@@ -425,7 +428,8 @@ Eigen::SparseMatrix<double> BulkKinetics::fwdRatesOfProgress_ddCi()
 
     // forward reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     return calculateCompositionDerivatives(m_reactantStoich, rop_rates, false);
 }
 
@@ -435,7 +439,8 @@ Eigen::SparseMatrix<double> BulkKinetics::revRatesOfProgress_ddCi()
 
     // reverse reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     applyEquilibriumConstants(rop_rates.data());
     return calculateCompositionDerivatives(m_revProductStoich, rop_rates, false);
 }
@@ -446,7 +451,8 @@ Eigen::SparseMatrix<double> BulkKinetics::netRatesOfProgress_ddCi()
 
     // forward reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     auto jac = calculateCompositionDerivatives(m_reactantStoich, rop_rates, false);
 
     // reverse reaction rate coefficients
-- 
2.43.0


From 0aab663509cddce275d3e1cd01f29486befd2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:20 +0000
Subject: [PATCH 30/32] fix: Derivatives of rates of progress at zero
 concentrations

A species with reaction order zero does not influence the rate even if it is absent,
and the derivative with respect to an absent species of first order does not vanish.
---
 include/cantera/kinetics/StoichManager.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cantera/kinetics/StoichManager.h b/include/cantera/kinetics/StoichManager.h
index 0f930a3..f92dbd5 100644
--- a/include/cantera/kinetics/StoichManager.h
+++ b/include/cantera/kinetics/StoichManager.h
@@ -407,10 +407,11 @@ public:
             // calculate derivative
             double prod = R[m_rxn];
             double order_i = m_order[i];
-            if (S[m_ic[i]] > 0. && order_i != 0.) {
+            if (order_i != 0. && (S[m_ic[i]] > 0. ||
+                                  (S[m_ic[i]] == 0. && order_i >= 1.))) {
                 prod *= order_i * std::pow(S[m_ic[i]], order_i - 1);
                 for (size_t j = 0; j < m_n; j++) {
-                    if (i != j) {
+                    if (i != j && m_order[j] != 0.) {
                         if (S[m_ic[j]] > 0) {
                             prod *= std::pow(S[m_ic[j]], m_order[j]);
                         } else {
-- 
2.43.0


From a9fe79ad7d8fc63d3f2e6dbb4e9f2603bd23a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:36 +0000
Subject: [PATCH 31/32] fix: Skip falloff reactions in composition derivatives
 when requested

With skip-falloff, the rates of progress of falloff reactions were multiplied with their
third-body efficiencies as if they followed the law of mass action.
---
 src/kinetics/BulkKinetics.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 960f483..c37d85c 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -692,6 +692,8 @@ Eigen::SparseMatrix<double> BulkKinetics::calculateCompositionDerivatives(
             rates->processRateConstants_ddM(
                 outV.data(), m_kf0.data(), m_jac_rtol_delta, false);
         }
+    } else {
+        m_multi_concm.scaleM(outV.data(), outV.data(), m_concm.data(), 0.);
     }
 
     // derivatives handled by ThirdBodyCalc
-- 
2.43.0


From de68a54ebca3ef965d3d39c1e11aa21ee7c5c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:04 +0000
Subject: [PATCH 32/32] fix: Clearing C interface storage after objects have
 been deleted

Cabinet::clear() called del() for every index, which raises an error for an
object that was already deleted, so that clearing stopped there and left the
remaining objects in place (for example ct_clearStorage after deleting any
handle).
---
 src/clib/Cabinet.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/clib/Cabinet.h b/src/clib/Cabinet.h
index fba0977..3d5dda8 100644
--- a/src/clib/Cabinet.h
+++ b/src/clib/Cabinet.h
@@ -90,7 +90,9 @@ public:
     static int clear() {
         dataRef data = getData();
         for (size_t i = 0; i < data.size(); i++) {
-            del(static_cast<int>(i));
+            if (data[i]) { // not deleted earlier
+                del(static_cast<int>(i));
+            }
         }
         return 0;
     }
-- 
2.43.0


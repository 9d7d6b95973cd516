From 8a0ba782e3405d007c28c81ecd0f1db81ef64585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:05 +0000
Subject: [PATCH 01/31] fix: use emissions for all gases in the first emissions
 year when it is the last year of the run

With nyend == emstart the precalculated gases took the prescribed concentration
while CO2, CH4 and N2O were calculated from emissions.
---
 src/ciceroscm/concentrations_emissions_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index dbf05f9..8769744 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -279,7 +279,7 @@ class ConcentrationsEmissionsHandler:
 
     def _precalculate_concentrations_vanilla_gases(self, df_gases_vanilla):
         conc_in_vanilla = self.conc_in.copy()[df_gases_vanilla.index]
-        if self.pamset["conc_run"] or self.pamset["nyend"] <= self.pamset["emstart"]:
+        if self.pamset["conc_run"] or self.pamset["nyend"] < self.pamset["emstart"]:
             return conc_in_vanilla.iloc[
                 self.pamset["nystart"]
                 - conc_in_vanilla.index[0] : self.pamset["nyend"]
-- 
2.43.0


From 68966bfb7dd343ca73cfcd016903e0426994ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:05 +0000
Subject: [PATCH 02/31] fix: allow emissions to start in the first year of the
 run

The precalculation of gases without interactions raised an IndexError when
emstart is not after nystart, although emi2conc supports it.
---
 src/ciceroscm/concentrations_emissions_handler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 8769744..e18579b 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -287,15 +287,18 @@ class ConcentrationsEmissionsHandler:
                 + 1
             ]
 
+        # Emissions can be used from the first year of the run
+        emstart = max(self.pamset["emstart"], self.pamset["nystart"])
+        conc_start = conc_in_vanilla.loc[max(emstart - 1, self.pamset["nystart"])]
         conc_in_vanilla = conc_in_vanilla.iloc[
             self.pamset["nystart"]
-            - conc_in_vanilla.index[0] : self.pamset["emstart"]
+            - conc_in_vanilla.index[0] : emstart
             - conc_in_vanilla.index[0]
         ]
 
         emis_vanilla = self.emis.copy()[df_gases_vanilla.index]
         emis_vanilla = emis_vanilla.iloc[
-            self.pamset["emstart"]
+            emstart
             - emis_vanilla.index[0] : self.pamset["nyend"]
             - emis_vanilla.index[0]
             + 1
@@ -306,7 +309,7 @@ class ConcentrationsEmissionsHandler:
         for i in range(emis.shape[0]):
             emis_now = emis[i, :]
             if i == 0:
-                conc_prev = conc_in_vanilla.iloc[-1, :].to_numpy()
+                conc_prev = conc_start.to_numpy()
             else:
                 conc_prev = conc_rows[-1]
             conc = emis_now / df_gases_vanilla["BETA"].to_numpy() / q * (
-- 
2.43.0


From dec359895c1e911ac3ffadb142fb1e0b05fa6ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:14 +0000
Subject: [PATCH 03/31] fix: report emissions for exactly the years of the run

Emissions data starting before nystart made the collection of results fail.
---
 src/ciceroscm/concentrations_emissions_handler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index e18579b..a38047e 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -998,9 +998,7 @@ class ConcentrationsEmissionsHandler:
         cols = cols[-1:] + cols[:-1]
         df_forc = df_forc[cols]
         df_forc.rename(columns={"SO2": "SO4_DIR"}, inplace=True)
-        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).drop(
-            labels=np.arange(self.years[-1] + 1, self.emis.index[-1] + 1), axis=0
-        )
+        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).loc[self.years]
         df_emis["Year"] = self.years
         df_emis["CO2"] = self.emis["CO2_FF"] + self.emis["CO2_AFOLU"]
         cols = df_emis.columns.tolist()
-- 
2.43.0


From 90c6b967aba05523d0a24e79a918a2a92b4babbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:14 +0000
Subject: [PATCH 04/31] fix: add every forcing perturbation of a precalculated
 gas

Of several perturbations of the same gas and year only the last was kept, and
a perturbation outside the years of the run raised a KeyError, unlike for the
other components.
---
 src/ciceroscm/perturbations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/perturbations.py b/src/ciceroscm/perturbations.py
index e8bf566..e2bd330 100644
--- a/src/ciceroscm/perturbations.py
+++ b/src/ciceroscm/perturbations.py
@@ -221,8 +221,9 @@ class ForcingPerturbation:
             return
         for gas in precalc_pert_gases:
             perturb_here = self.perturb_raw[self.perturb_raw.component == gas]
-            precalc_erf.loc[perturb_here.year.values, gas] = (
-                precalc_erf.loc[perturb_here.year.values, gas].values
-                + perturb_here.forcing.values
-            )
+            for row in perturb_here.itertuples(index=True, name="Pandas"):
+                if row.year in precalc_erf.index:
+                    precalc_erf.loc[row.year, gas] = (
+                        precalc_erf[gas][row.year] + row.forcing
+                    )
         return
-- 
2.43.0


From bbe96b7e75979757194642555d39e17f152da1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:14 +0000
Subject: [PATCH 05/31] fix: do not write natural emissions and perturbations
 into the caller's data

Natural emissions were written into gaspam_data and emission perturbations
added to emissions_data, so that a second instance made from the same data
perturbed its emissions twice.
---
 src/ciceroscm/concentrations_emissions_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index a38047e..41d566f 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -182,7 +182,7 @@ class ConcentrationsEmissionsHandler:
         pamset : dict
            list of physical parameters to define the run
         """
-        self.df_gas = input_handler.get_data("gaspam")
+        self.df_gas = input_handler.get_data("gaspam").copy()
         self.conc = {}
         self.forc = {}
         self.nat_emis_ch4 = input_handler.get_data("nat_ch4")
@@ -190,7 +190,7 @@ class ConcentrationsEmissionsHandler:
         self.pamset = check_pamset(pamset)
         self.years = np.arange(self.pamset["nystart"], self.pamset["nyend"] + 1)
         self.conc_in = input_handler.get_data("concentrations")
-        self.emis = input_handler.get_data("emissions")
+        self.emis = input_handler.get_data("emissions").copy()
         self.pamset["conc_run"] = input_handler.conc_run()
         if input_handler.optional_pam("perturb_em"):
             perturb_emissions(input_handler, self.emis)
-- 
2.43.0


From 4976d441b389b6374e076c75e1f4f3b9f68df058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:14 +0000
Subject: [PATCH 06/31] fix: aerosol forcing fraction includes aerosol forcing
 perturbations

The perturbations were part of the total magnitude but not of the aerosol
magnitude, so that the fraction could exceed one.
---
 src/ciceroscm/concentrations_emissions_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 41d566f..e122a97 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -639,7 +639,7 @@ class ConcentrationsEmissionsHandler:
         tot_forc, forc_nh, forc_sh = self.calculate_forc_three_main(yr)
         yr_0 = self.years[0]
         # Finish per tracer calculations, add per tracer to printable df and sum the total
-        f_aero_mag = 0.0
+        aerosol_tracers = []
         for tracer, forc_val_series in self.forc.items():
             if tracer in ["CO2", "N2O", "CH4"]:
                 continue
@@ -654,7 +654,7 @@ class ConcentrationsEmissionsHandler:
                 "BM",
             ]:
                 q = self.calc_aerosol_forcing(yr, tracer)
-                f_aero_mag = f_aero_mag + abs(q)
+                aerosol_tracers.append(tracer)
             elif (
                 tracer in self.df_gas.index
                 and self.df_gas["ALPHA"][tracer] != 0  # pylint: disable=compare-to-zero
@@ -721,6 +721,7 @@ class ConcentrationsEmissionsHandler:
         # Returns 0.0 when all components are zero (pre-industrial),
         # which is the no-pattern-effect case anyway.
         idx = yr - yr_0
+        f_aero_mag = sum(abs(self.forc[k][idx]) for k in aerosol_tracers)
         f_abs_total = sum(
             abs(s[idx]) for k, s in self.forc.items() if k != "Total_forcing"
         )
-- 
2.43.0


From 2e7837f2e51f78c95c744a7905c54ca49c077924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:14 +0000
Subject: [PATCH 07/31] fix: allow just_one for precalculated components

---
 src/ciceroscm/concentrations_emissions_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index e122a97..9794113 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -707,7 +707,10 @@ class ConcentrationsEmissionsHandler:
         # Adding solar forcing
         # tot_forc = tot_forc + rf_sun
         if "just_one" in self.pamset:
-            tot_forc = self.forc[self.pamset["just_one"]][yr - yr_0]
+            if self.pamset["just_one"] in self.forc:
+                tot_forc = self.forc[self.pamset["just_one"]][yr - yr_0]
+            else:
+                tot_forc = self.precalc_dict["precalc_erf"][self.pamset["just_one"]][yr]
             forc_nh, forc_sh = calculate_hemispheric_forcing(
                 self.pamset["just_one"], tot_forc, 0, 0
             )
-- 
2.43.0


From 4401a395abf0aec60f7bf35ba486f87ff3a0fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:14 +0000
Subject: [PATCH 08/31] fix: just_one only applies to the run it is set for

All other parameters of a run go back to their defaults in the next run of the
same instance.
---
 src/ciceroscm/concentrations_emissions_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 9794113..fa2d71a 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -109,7 +109,7 @@ def check_pamset_consistency(pamset_old, pamset_new):
             )
             pamset_new[pam] = pamset_old[pam]
     for pam, value in pamset_old.items():
-        if pam not in pamset_new:
+        if pam not in pamset_new and pam != "just_one":
             pamset_new[pam] = value
     return pamset_new
 
-- 
2.43.0


From ea951da1a96382bdff8faa5e7215c3fe33044677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:47 +0000
Subject: [PATCH 09/31] fix: use rs_function and rb_function of the instance
 configuration

They were put in the emissions parameters, from which they are cut, instead of
the carbon cycle parameters, so that the documented option had no effect.
---
 src/ciceroscm/ciceroscm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f0c6a9b..fa4b74d 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -121,11 +121,12 @@ class CICEROSCM:
             pamset_emiconc["nyend"] = self.cfg["nyend"]
             pamset_emiconc["idtm"] = self.cfg["idtm"]
 
+            pamset_carbon = {}
             for key, value in cfg.items():
                 if key in ["rs_function", "rb_function"]:
-                    pamset_emiconc[key] = value
+                    pamset_carbon[key] = value
             self.ce_handler = ConcentrationsEmissionsHandler(
-                input_handler, pamset_emiconc
+                input_handler, pamset_emiconc, pamset_carbon
             )
             self.feedback_list = self.ce_handler.get_feedback_list()
         self.results = {}
-- 
2.43.0


From 16cf20bbcece883c4628a22217fc9a8a4871e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:47 +0000
Subject: [PATCH 10/31] fix: leave the caller's emissions and carbon parameter
 dictionaries as they are

---
 src/ciceroscm/concentrations_emissions_handler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index fa2d71a..3a8ac60 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -43,8 +43,7 @@ def check_pamset(pamset):
     dict
         Updated pamset with default values used where necessary
     """
-    if pamset is None:
-        pamset = {}
+    pamset = {} if pamset is None else dict(pamset)
     required = {
         "qbmb": 0.0,
         "qo3": 0.5,
@@ -206,7 +205,7 @@ class ConcentrationsEmissionsHandler:
         # Setting up carbon cycle model
         model_type = self.pamset["carbon_cycle_model"]  # Default to "default"
         # Adding in preindustrial CO2 concentration from input concentrations
-        pamset_carbon = pamset_carbon if pamset_carbon is not None else {}
+        pamset_carbon = dict(pamset_carbon) if pamset_carbon is not None else {}
         pamset_carbon["preindustrial_co2_conc"] = self.conc_in["CO2"][
             self.pamset["nystart"]
         ]
-- 
2.43.0


From 1299a9dee2e81c855f630e1a0dd951be8d317ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:47 +0000
Subject: [PATCH 11/31] fix: results of a previous run do not linger in the
 results of the next

A run without carbon cycle outputs kept those of the run before.
---
 src/ciceroscm/ciceroscm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index fa4b74d..8b81c00 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -152,6 +152,7 @@ class CICEROSCM:
             list(self.thermal_model_class.get_output_dict_thermal().keys())
             + FORC_OUTPUT_LIST
         )
+        self.results = {}
         for output in output_variables:
             self.results[output] = np.zeros(self.cfg["nyend"] - self.cfg["nystart"] + 1)
 
-- 
2.43.0


From 1186385106c513f8393736a935ea5dd535c3d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:47 +0000
Subject: [PATCH 12/31] fix: file output for thermal models without hemispheric
 results

The two-layer model could not be run with output to files.
---
 src/ciceroscm/ciceroscm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index 8b81c00..98fda43 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -368,7 +368,8 @@ class CICEROSCM:
         list_rib = ["RIB_glob", "RIB_N", "RIB_S"]
         df_rib = pd.DataFrame(data={"Year": indices})
         for vari in list_rib:
-            df_rib[vari] = self.results[vari]
+            if vari in self.results:
+                df_rib[vari] = self.results[vari]
         list_temp = [
             "dT_glob",
             "dT_NH",
@@ -386,7 +387,8 @@ class CICEROSCM:
         else:
             filename_start = "output"
         for vari in list_temp:
-            df_temp[vari] = self.results[vari]
+            if vari in self.results:
+                df_temp[vari] = self.results[vari]
 
         df_ohc.to_csv(
             os.path.join(outdir, f"{filename_start}_ohc.txt"),
-- 
2.43.0


From e15d278f3810cc9eab0d0708690a150bde8492fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:47 +0000
Subject: [PATCH 13/31] fix: total forcing of a hemispherically split forcing
 file is the yearly mean

The mean was taken over the years instead of the hemispheres, giving NaN.
---
 src/ciceroscm/input_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 40cbc3d..2b88f22 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -174,7 +174,7 @@ def read_forc(forc_file):
         df_forc = pd.read_csv(forc_file, index_col=0)
         if "total" not in df_forc.columns:
             if "FORC_NH" in df_forc.columns and "FORC_SH" in df_forc.columns:
-                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean()
+                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean(axis=1)
             else:
                 df_forc["total"] = df_forc[list(df_forc)].sum(axis=1)
                 df_forc["FORC_NH"] = df_forc["total"]
-- 
2.43.0


From 7a79e89acdfb4f90ab989db9ae1a15b56c0781b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:47 +0000
Subject: [PATCH 14/31] fix: use rf_volc_file and rf_volc_data

The documented options for hemispherically symmetric volcanic forcing were cut
from the configuration before they were looked up.
---
 src/ciceroscm/input_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 2b88f22..98f315b 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -275,7 +275,7 @@ class InputHandler:
             "conc_run": False,
             "idtm": 24,
         }
-        for key in self.read_methods:
+        for key in [*self.read_methods, "rf_volc"]:
             used[f"{key}_file"] = 0
             used[f"{key}_data"] = 0
         self.cfg = cut_and_check_pamset(
-- 
2.43.0


From 43a5a9e2e3b25ee9ccecea1d3ee35261d92f3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:47 +0000
Subject: [PATCH 15/31] fix: ignore solar and volcanic forcing files when
 sunvolc is not 1

As documented, and as for data sent directly.
---
 src/ciceroscm/input_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 98f315b..657a6d1 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -428,6 +428,8 @@ class InputHandler:
                 self.cfg["rf_volc_n_data"] = self.cfg["rf_volc_data"]
                 self.cfg["rf_volc_s_data"] = self.cfg["rf_volc_data"]
         else:
+            for what in ["rf_sun", "rf_volc", "rf_volc_n", "rf_volc_s"]:
+                self.cfg.pop(f"{what}_file", None)
             indices = np.arange(self.cfg["nystart"], self.cfg["nyend"] + 1)
             self.cfg["rf_volc_n_data"] = pd.DataFrame(
                 data=np.zeros((self.cfg["nyend"] - self.cfg["nystart"] + 1, 12)),
-- 
2.43.0


From 6f47ac5500ef0091242809a94eab660cae561b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:40 +0000
Subject: [PATCH 16/31] fix: leave the caller's configuration dictionary as it
 is

---
 src/ciceroscm/ciceroscm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index 98fda43..73409d5 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -98,7 +98,7 @@ class CICEROSCM:
             cfg,
             {"carbon_cycle_model": "default", "thermal_model": "default"},
         )
-        cfg.update(self.cfg)
+        cfg = {**cfg, **self.cfg}
 
         input_handler = InputHandler(cfg)
         self.cfg["rf_run"] = input_handler.optional_pam("forc")
-- 
2.43.0


From 55be03cf3942e9e349cfffc8929737e50f702553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:52 +0000
Subject: [PATCH 17/31] fix: rf_volc_data overrides hemispherically split
 volcano files

The global volcanic option is documented to override the hemispherically split
ones and file options to be exchangeable with data options, but rf_volc_data was
ignored when rf_volc_n_file or rf_volc_s_file was sent as well.
---
 src/ciceroscm/input_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 657a6d1..6218f40 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -425,6 +425,9 @@ class InputHandler:
                 self.cfg["rf_volc_n_file"] = self.cfg["rf_volc_file"]
                 self.cfg["rf_volc_s_file"] = self.cfg["rf_volc_file"]
             elif "rf_volc_data" in self.cfg:
+                # Overrides hemispherically split files, as rf_volc_file does
+                self.cfg.pop("rf_volc_n_file", None)
+                self.cfg.pop("rf_volc_s_file", None)
                 self.cfg["rf_volc_n_data"] = self.cfg["rf_volc_data"]
                 self.cfg["rf_volc_s_data"] = self.cfg["rf_volc_data"]
         else:
-- 
2.43.0


From c3365f0787f6815720e1284d964b55ae60ed8926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:45 +0000
Subject: [PATCH 18/31] fix: return serial results in the order of the
 configurations

---
 src/ciceroscm/parallel/_parallel_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_parallel_process.py b/src/ciceroscm/parallel/_parallel_process.py
index be9a4f7..3a1ddf8 100644
--- a/src/ciceroscm/parallel/_parallel_process.py
+++ b/src/ciceroscm/parallel/_parallel_process.py
@@ -165,7 +165,7 @@ def _parallel_process(  # pylint:disable=too-many-arguments,too-many-positional-
             desc="Serial runs",
         )
 
-        return rest + front_serial_res
+        return front_serial_res + rest
 
     front_parallel_res = []
     if front_parallel > 0:
-- 
2.43.0


From b97702ffc6e6c612c666bfc375f035b672336117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:45 +0000
Subject: [PATCH 19/31] fix: leave the caller's scenario dictionary as it is

---
 src/ciceroscm/parallel/cscmparwrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/cscmparwrapper.py b/src/ciceroscm/parallel/cscmparwrapper.py
index f7a6073..272493f 100644
--- a/src/ciceroscm/parallel/cscmparwrapper.py
+++ b/src/ciceroscm/parallel/cscmparwrapper.py
@@ -46,7 +46,7 @@ def _execute_run(cfgs, output_variables, scenariodata):
 
     """
     scenariodata = check_numeric_pamset(
-        {"nystart": 1750, "nyend": 2100, "emstart": 1850}, scenariodata
+        {"nystart": 1750, "nyend": 2100, "emstart": 1850}, scenariodata.copy()
     )
     par_wrapper = CSCMParWrapper(scenariodata)
     try:
-- 
2.43.0


From 05aa199c45dd71696039c833baf8415df3faa903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:45 +0000
Subject: [PATCH 20/31] fix: keep meta information when configurations are
 written again

---
 src/ciceroscm/parallel/distributionrun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/distributionrun.py b/src/ciceroscm/parallel/distributionrun.py
index 0cdb749..79c7aa3 100644
--- a/src/ciceroscm/parallel/distributionrun.py
+++ b/src/ciceroscm/parallel/distributionrun.py
@@ -89,7 +89,9 @@ class DistributionRun:
         meta_info: dict, optional
             dictionary with meta optional information to add to the json file
         """
-        if meta_info is None and self.meta_info is None:
+        if meta_info is None:
+            meta_info = self.meta_info
+        if meta_info is None:
             with open(json_file_name, "w", encoding="utf-8") as wfile:
                 json.dump(self.cfgs, wfile)
         else:
-- 
2.43.0


From fc3b42f2f3b2c231725c09634c747e8b48efd8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:45 +0000
Subject: [PATCH 21/31] fix: sort sampled and set parameters into the set of
 the model that uses them

---
 src/ciceroscm/parallel/_configdistro.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index fb91c0d..916e266 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -9,6 +9,7 @@ import numpy as np
 from scipy.stats import qmc
 
 from ..carbon_cycle.carbon_cycle_mod import CARBON_CYCLE_MODEL_REQUIRED_PAMSET
+from ..carbon_cycle.carbon_cycle_mod_box import CarbonCycleModel as BoxCarbonCycleModel
 
 LOGGER = logging.getLogger(__name__)
 
@@ -83,9 +84,20 @@ ordering_standard_forc = [
     "threstemp",
     "lm",
     "ldtime",
+    "foan",
+    "foas",
+    "ebbeta",
+    "deep",
+    "k",
 ]
 """list: Containing a default ordering of parameters for forcing run"""
 
+CARBON_PARAMETERS = {
+    **CARBON_CYCLE_MODEL_REQUIRED_PAMSET,
+    **BoxCarbonCycleModel.carbon_cycle_model_required_pamset,
+}
+"""dict: Containing all the parameters of the available carbon cycle models"""
+
 set_values_default = {
     "threstemp": 7.0,
     "lm": 40,
@@ -140,7 +152,7 @@ class _ConfigDistro:
             setvalues = set_values_default.copy()
         if distro_dict is None:
             distro_dict = prior_flat.copy()
-        self.options = options
+        self.options = options.copy()
         if "forc" not in options:
             self.options["forc"] = False
         if "method" not in options:
@@ -200,7 +212,7 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET:
+            elif pam in CARBON_PARAMETERS or pam.startswith(("rb_", "rs_")):
                 self.pamset_carbon_start[pam] = value
             else:
                 self.pamset_emiconc_start[pam] = value
@@ -354,10 +366,7 @@ class _ConfigDistro:
             for j, pam in enumerate(self.ordering):
                 if pam in ordering_standard_forc:
                     pamset_udm[pam] = samples[i, j]
-                elif (
-                    not self.options["forc"]
-                    and pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET
-                ):
+                elif not self.options["forc"] and pam in CARBON_PARAMETERS:
                     pamset_carbon[pam] = samples[i, j]
                 elif not self.options["forc"] and pam.startswith(("rb_", "rs_")):
                     pamset_carbon[pam] = samples[i, j]
-- 
2.43.0


From 539d6fa9198c188e6851f7bcc739ff2a14fdbb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:45 +0000
Subject: [PATCH 22/31] fix: leave out carbon cycle outputs when
 carbon_cycle_outputs is False

---
 src/ciceroscm/concentrations_emissions_handler.py      | 4 ++--
 src/ciceroscm/formattingtools/reformat_cscm_results.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 3a8ac60..28d0c9a 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -954,7 +954,7 @@ class ConcentrationsEmissionsHandler:
                 "conc", results_dict["concentrations"], outdir, self.df_gas["CONC_UNIT"]
             )
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs"):
             # Adding carbon cycle outputs here
             # Typically back_calculated emissions for conc_run
             # Airborne fraction
@@ -1025,7 +1025,7 @@ class ConcentrationsEmissionsHandler:
         results["concentrations"] = df_conc
         results["forcing"] = df_forc
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs"):
             results["carbon cycle"] = self.get_carbon_cycle_data(
                 feedback_dict_series=feedback_dict_series
             )
diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 6760bd8..dd3b9d3 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -218,7 +218,7 @@ def get_data_from_em(results, variable):
     df_temp = results["emissions"]
     years = df_temp.Year[:]
     # If concentrations run, CO2 emissions should be taken from carbon cycle back calculation
-    if "Emissions" in results["carbon cycle"].keys() and variable == "CO2":
+    if variable == "CO2" and "Emissions" in results.get("carbon cycle", {}):
         timeseries = results["carbon cycle"][
             "Emissions"
         ].to_numpy()  # pylint:disable=unsubscriptable-object
-- 
2.43.0


From 7b87bebee10db1ecc7f28a8dc37aceaa7b68e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:45 +0000
Subject: [PATCH 23/31] fix: sum all aerosol components in the aerosol forcing
 variables

---
 .../formattingtools/reformat_cscm_results.py          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index dd3b9d3..73557a5 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -45,6 +45,7 @@ openscm_to_cscm_dict = {
     "Atmospheric Concentrations|Ozone|Tropospheric'": "TROP_O3",
 }
 forc_sums = ["Aerosols", "Aerosols|Direct Effect"]
+direct_aerosols = ["SO4_DIR", "BC", "OC", "BMB_AEROS", "NMVOC", "NH3", "NOx"]
 fgas_list = [
     "HFC125",
     "HFC134a",
@@ -177,9 +178,11 @@ def get_data_from_forc_common(
     years = df_temp.Year[:]
     if variable in forc_sums:
         timeseries = np.zeros(len(years))
-        for comp, value in v_dict.items():
-            if variable in comp and value not in forc_sums:
-                timeseries = timeseries + df_temp[value].to_numpy()
+        for comp in df_temp.columns:
+            if comp in direct_aerosols or comp.startswith(("SO2_", "BC_", "OC_")):
+                timeseries = timeseries + df_temp[comp].to_numpy()
+            elif comp == "SO4_IND" and variable == "Aerosols":
+                timeseries = timeseries + df_temp[comp].to_numpy()
     elif variable in ("Fgas", "GHG"):
         timeseries = np.zeros(len(years))
         for comp in fgas_list:
@@ -272,7 +275,7 @@ class CSCMREADER:
     """
 
     def __init__(self, nystart, nyend):
-        self.variable_dict = openscm_to_cscm_dict
+        self.variable_dict = openscm_to_cscm_dict.copy()
         self.variable_dict["Effective Radiative Forcing|Aerosols|Direct Effect|SOx"] = (
             "SO4_DIR"
         )
-- 
2.43.0


From f5d39c8317dd994ec431dee32722db39a08230cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:45 +0000
Subject: [PATCH 24/31] fix: same emission units for gas parameters from file
 and DataFrame

---
 .../reformat_inputdata_to_cscm_format.py      | 77 ++++++++++---------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py b/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
index ad24ddd..359ce0a 100644
--- a/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
+++ b/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
@@ -54,6 +54,37 @@ cicero_comp_dict = {
 # Halon1212, CH3Cl
 
 
+def emission_unit(component, unit):
+    """
+    Get the emission unit of a component, with the name of what is emitted
+
+    Parameters
+    ----------
+    component : str
+        Name of the component
+    unit : str
+        Emission unit of the component in the gas parameter file
+
+    Returns
+    -------
+    str
+        Emission unit per year
+    """
+    if component == "N2O" and unit == "Tg_N":
+        # in openscm-units, to get the mass of nitrogen, have
+        # to use the unit "Tg N2ON" (converting to "Tg N" just
+        # converts using the mass fraction of a single nitrogen
+        # atom, admittedly this isn't immediately obvious and
+        # arguably is a bug in openscm-units)
+        return "TgN2ON / yr"
+    if unit == "X":
+        return "X / yr"
+    if "_" in unit:
+        return f"{unit.replace('_', '')} / yr"
+    comp_str = component.replace("-", "").replace("BMB_AEROS_", "")
+    return f"{unit}{comp_str} / yr"
+
+
 class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
     """
     Class to write scenariofiles:
@@ -84,26 +115,8 @@ class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
                 if row[1] == "X":
                     continue
 
-                component = row[0]
-                unit = row[1]
-
-                if component == "N2O" and unit == "Tg_N":
-                    # in openscm-units, to get the mass of nitrogen, have
-                    # to use the unit "Tg N2ON" (converting to "Tg N" just
-                    # converts using the mass fraction of a single nitrogen
-                    # atom, admittedly this isn't immediately obvious and
-                    # arguably is a bug in openscm-units)
-                    unit = "TgN2ON"
-                elif "_" in unit:
-                    unit = unit.replace("_", "")
-                else:
-                    comp_str = component.replace("-", "").replace("BMB_AEROS_", "")
-                    unit = f"{unit}{comp_str}"
-
-                unit = f"{unit} / yr"
-
-                self.components.append(component)
-                self.units.append(unit)
+                self.components.append(row[0])
+                self.units.append(emission_unit(row[0], row[1]))
                 self.concunits.append(row[2])
 
         self.components.insert(1, "CO2_lu")
@@ -114,22 +127,14 @@ class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
         """
         Intialize units and compontets if pandas of gasfile is sent deal with units
         """
-        gasdata_mod = gasfile.copy()
-        # Might cause problems later, hopefully not
-        gasdata_mod.replace("Tg_N", "TgN2ON", inplace=True)
-        gasdata_mod["CONC_UNIT"] = gasdata_mod["CONC_UNIT"].replace("_", "")
-        # Not very robuste...:
-        gasdata_mod.loc["BMB_AEROS_OC", "EM_UNIT"] = gasdata_mod["EM_UNIT"][
-            "BMB_AEROS_OC"
-        ].replace("Tg", "TgOC")
-        gasdata_mod.loc["BMB_AEROS_BC", "EM_UNIT"] = gasdata_mod["EM_UNIT"][
-            "BMB_AEROS_BC"
-        ].replace("Tg", "TgBC")
-        self.components = gasdata_mod.index.values.tolist()
-        units = gasdata_mod["EM_UNIT"].values.tolist()
-        self.concunits = gasdata_mod["CONC_UNIT"].values.tolist()
-
-        self.units = [f"{unit} / yr" for unit in units]
+        self.components = gasfile.index.values.tolist()
+        self.concunits = gasfile["CONC_UNIT"].values.tolist()
+        self.units = [
+            emission_unit(component, unit)
+            for component, unit in zip(
+                self.components, gasfile["EM_UNIT"].values.tolist()
+            )
+        ]
         self.components.insert(1, "CO2_lu")
         self.units.insert(1, "PgC / yr")
         self.concunits.insert(1, "ppm")
-- 
2.43.0


From 17b9460cc0ea6e0e8591eb0d92ee5c661749b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 25/31] fix: give every chunk of configurations its own file
 whatever the file name

---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index 916e266..d5e10de 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -4,6 +4,7 @@ Module to make parameter distributions
 
 import json
 import logging
+import os
 
 import numpy as np
 from scipy.stats import qmc
@@ -321,7 +322,8 @@ class _ConfigDistro:
             start_num = config_num * max_chunk_size
             json_fname_now = None
             if json_fname is not None:
-                json_fname_now = json_fname.replace(".json", f"chunk_{config_num}.json")
+                root, ext = os.path.splitext(json_fname)
+                json_fname_now = f"{root}chunk_{config_num}{ext}"
             config_chunk_list[config_num] = self.make_single_config_list(
                 samples[start_num : start_num + num_this_chunk],
                 numvalues=num_this_chunk,
-- 
2.43.0


From 831766d27654b84a22b9e84a8e19945cad83ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:00 +0000
Subject: [PATCH 26/31] fix: keep the reference years of emission and
 concentration files

Files were cut to the years of the run, so a run from files ending
before 2010 (reference year) or 2000 (methane lifetime) failed with a
KeyError, while the same data given as tables worked.
---
 src/ciceroscm/input_handler.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 6218f40..2457d62 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -256,12 +256,7 @@ class InputHandler:
             "gaspam": read_components,
             "nat_ch4": [read_natural_emissions, "CH4"],
             "nat_n2o": [read_natural_emissions, "N2O"],
-            "concentrations": [
-                read_inputfile,
-                True,
-                1750,
-                2100,
-            ],
+            "concentrations": read_inputfile,
             "emissions": self.read_emissions,
             "perturb_em": read_csv_no_index_col,
             "perturb_forc": pd.read_csv,
@@ -290,12 +285,6 @@ class InputHandler:
             used=used,
             cut_warnings=True,
         )
-        self.read_methods["concentrations"] = [
-            read_inputfile,
-            True,
-            self.cfg["nystart"],
-            self.cfg["nyend"],
-        ]
         self.set_sun_volc_luc_defaults()
 
         for nat_emis in ["nat_ch4", "nat_n2o"]:
@@ -525,12 +514,7 @@ class InputHandler:
         -------
                pandas.Dataframe
         """
-        emis = read_inputfile(
-            filename,
-            cut_years=True,
-            year_start=self.cfg["nystart"],
-            year_end=self.cfg["nyend"],
-        )
+        emis = read_inputfile(filename)
         emis.rename(columns={"CO2": "CO2_FF", "CO2.1": "CO2_AFOLU"}, inplace=True)
         return emis
 
-- 
2.43.0


From 1118e1afb98124857681542cf37309c1df915b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 27/31] fix: plots of a run with a thermal model without
 hemispheric output

---
 src/ciceroscm/make_plots.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 00ad9a6..d96defa 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -77,8 +77,10 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(12, 6))
     axs[0].plot(indices, results["RIB_glob"], label="RIB_glob")
     axs[1].plot(indices, results["RIB_glob"], label="RIB_glob")
-    axs[1].plot(indices, results["RIB_N"], label="RIB_N", linestyle=":")
-    axs[1].plot(indices, results["RIB_S"], label="RIB_S", linestyle="--")
+    # Not all thermal models have hemispheric or air and sea output
+    for comp, linestyle in {"RIB_N": ":", "RIB_S": "--"}.items():
+        if comp in results:
+            axs[1].plot(indices, results[comp], label=comp, linestyle=linestyle)
     fix_plot(
         axs,
         [r"W $\mathrm{m}^{-2}$", r"W $\mathrm{m}^{-2}$"],
@@ -90,6 +92,8 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(14, 6))
 
     for comp in ["dT_glob", "dT_glob_air", "dT_glob_sea"]:
+        if comp not in results:
+            continue
         colours = {"glob": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
         axs[0].plot(
             indices,
@@ -105,6 +109,8 @@ def plot_output1(pamset, results, nystart, nyend):
         "dT_SH_air",
         "dT_SHsea",
     ]:
+        if comp not in results:
+            continue
         if "NH" in comp:
             colours = {"NH": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
             axs[1].plot(
-- 
2.43.0


From a7e8523e2959f3b96bbefb27f6d132431acc58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 28/31] fix: plots of 33 to 36 components, whose last figure
 has a single row

---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index d96defa..9d0dae6 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -183,7 +183,7 @@ def plot_output2(
             if c == 32:
                 maxrows = int(np.ceil((len(comps) - 32) / 4))
             fig, axs = plt.subplots(
-                nrows=maxrows, ncols=4, sharex=True, figsize=(15, 10)
+                nrows=maxrows, ncols=4, sharex=True, figsize=(15, 10), squeeze=False
             )
             if var == "forc":
                 title = (
-- 
2.43.0


From 582391f236b894f98a307e5308cbcbd3a60cc570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 29/31] fix: forcing plots when a component left out of them is
 not in the gas table

---
 src/ciceroscm/make_plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 9d0dae6..003b0c9 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -173,7 +173,9 @@ def plot_output2(
         df_in = df_in.drop(labels=cut, axis=1)
     elif var == "forc":
         df_in = df_in.drop(
-            labels=["NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"], axis=1
+            labels=["NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"],
+            axis=1,
+            errors="ignore",
         )
     years = df_in["Year"]
     comps = df_in.columns[1:]
-- 
2.43.0


From e4f3daf8cfd2a17c65c4b11848c7b595bbce771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 30/31] fix: forcing plots show the first component of the
 table and not the year

---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 003b0c9..3d4dfa4 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -178,7 +178,7 @@ def plot_output2(
             errors="ignore",
         )
     years = df_in["Year"]
-    comps = df_in.columns[1:]
+    comps = df_in.columns.drop("Year")
     for c, comp in enumerate(comps):
         if c in [0, 16, 32]:
             maxrows = 4
-- 
2.43.0


From 0bac057de268e2dcee678a47d661c25d1fd1f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 31/31] fix: use parameters given as numpy numbers

Numbers of numpy's own types (numpy.int64 from a table's index, for example)
are neither int nor float, so a first year, last year or model parameter given
as one was silently replaced by its default.
---
 src/ciceroscm/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/_utils.py b/src/ciceroscm/_utils.py
index 36080a6..45542c0 100644
--- a/src/ciceroscm/_utils.py
+++ b/src/ciceroscm/_utils.py
@@ -3,6 +3,7 @@ Class for common utility functions
 """
 
 import logging
+import numbers
 
 LOGGER = logging.getLogger(__name__)
 
@@ -35,7 +36,7 @@ def check_numeric_pamset(required, pamset):
                 f"Parameter {pam} not in pamset. Using default value {value}",
             )
             pamset[pam] = value
-        elif not isinstance(pamset[pam], int) and not isinstance(pamset[pam], float):
+        elif not isinstance(pamset[pam], numbers.Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {pam} must be a number. Using default value {value}",
             )
@@ -142,7 +143,7 @@ def update_pam_if_numeric(pamset_old, pamset_new, can_change):
                 f"{key} is not a valid parameter to update this version of the Carbon cycle",
             )
             continue
-        if not isinstance(value, int) and not isinstance(value, float):
+        if not isinstance(value, numbers.Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {key} must be a number. {value} will be ignored",
             )
-- 
2.43.0


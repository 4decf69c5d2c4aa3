From c961c655d0c89b9598baca34028873eba886709e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:12 +0000
Subject: [PATCH 01/65] fix: Python parvmec/robust iteration rolls back on a
 mid-run bad Jacobian like the C++ loop

---
 src/vmecpp/_iteration.py | 73 ++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/vmecpp/_iteration.py b/src/vmecpp/_iteration.py
index f0b8350..588c83d 100644
--- a/src/vmecpp/_iteration.py
+++ b/src/vmecpp/_iteration.py
@@ -361,6 +361,12 @@ def solve_equilibrium(
             # (already time-stepped) state rather than reverting it -- and bumps
             # bad_resets / iter1 so the next evaluation keeps iter2 == 1. Reproduce
             # that here so the post-reguess trajectory matches C++ step for step.
+            # A forward-model BAD_JACOBIAN reverts unless the control below overrides
+            # it, exactly as restart_reason is carried through the C++ control.
+            reason = (
+                RestartReason.BAD_JACOBIAN if rr == RestartReason.BAD_JACOBIAN else None
+            )
+            store = False
             if rr == RestartReason.HUGE_INITIAL_FORCES:
                 if iter2 == iter1 or res0 == -1.0:
                     res0 = fsq1
@@ -385,17 +391,11 @@ def solve_equilibrium(
                 res0 = min(res0, fsq1)
                 res1 = min(res1, fsq0)
                 if fsq1 <= res0 and fsq0 <= res1:
-                    model.save_backup()
-                    saved_backup = True
+                    store = True
                 elif (iter2 - iter1) > 10 and (
                     fsq1 > _PARVMEC_BLOWUP * res0 or fsq0 > _PARVMEC_BLOWUP * res1
                 ):
-                    model.restore_backup()
-                    delt0r /= 1.03
-                    iter1 = iter2
-                    bad_resets += 1
-                    n_restarts += 1
-                    restarted = True
+                    reason = RestartReason.BAD_PROGRESS
             elif robust:
                 # Common-ground control: PARVMEC's dual-residual permissive leash
                 # (revert gently, without counting toward the give-up escalation)
@@ -408,8 +408,7 @@ def solve_equilibrium(
                 res0 = min(res0, fsq1)
                 res1 = min(res1, fsq0)
                 if fsq1 <= res0 and fsq0 <= res1:
-                    model.save_backup()
-                    saved_backup = True
+                    store = True
                 elif (
                     (iter2 - iter1) > 10
                     and (fsq1 > _ROBUST_BLOWUP * res0 or fsq0 > _ROBUST_BLOWUP * res1)
@@ -418,12 +417,7 @@ def solve_equilibrium(
                     and iter2 > 2 * _PRECOND_INTERVAL
                     and (fsqr + fsqz) > 1.0e-2
                 ):
-                    model.restore_backup()
-                    delt0r /= 1.03
-                    iter1 = iter2
-                    bad_resets += 1
-                    n_restarts += 1
-                    restarted = True
+                    reason = RestartReason.BAD_PROGRESS
             else:
                 # VMEC 8.52 TimeStepControl (reproduces the C++ inner solve,
                 # vmec.cc lines 962-1016). The forward model may set
@@ -436,29 +430,42 @@ def solve_equilibrium(
                 if iter2 == iter1 or res0 == -1.0:
                     res0 = fsq1
                 res0 = min(res0, fsq1)
-                blew_up = fsq1 > _VMEC_8_52_BLOWUP * res0 and iter2 > iter1
-                if rr == RestartReason.BAD_JACOBIAN or blew_up:
-                    model.restore_backup()
-                    delt0r *= 0.9
-                    ijacob += 1
-                    iter1 = iter2
-                    bad_resets += 1
-                    n_restarts += 1
-                    restarted = True
-                elif fsq1 <= res0 and (iter2 - iter1) > 10:
-                    model.save_backup()
-                    saved_backup = True
+                if fsq1 <= res0 and (iter2 - iter1) > 10:
+                    store = True
+                elif fsq1 > _VMEC_8_52_BLOWUP * res0 and iter2 > iter1:
+                    reason = RestartReason.BAD_JACOBIAN
                 elif (
                     (iter2 - iter1) > _PRECOND_INTERVAL // 2
                     and iter2 > 2 * _PRECOND_INTERVAL
                     and (fsqr + fsqz) > 1.0e-2
                 ):
-                    model.restore_backup()
+                    reason = RestartReason.BAD_PROGRESS
+
+            # RestartIteration on the "store" branch: checkpoints the geometry
+            # unless the forward model flagged overlapping surfaces, in which case
+            # it reverts without holding back the iteration counter.
+            if store and reason == RestartReason.BAD_JACOBIAN:
+                model.restore_backup()
+                delt0r *= 0.9
+                ijacob += 1
+                iter1 = iter2
+                n_restarts += 1
+                restarted = True
+            elif store:
+                model.save_backup()
+                saved_backup = True
+            # terminal "restart_reason != NO_RESTART" check, for every style
+            elif reason is not None:
+                model.restore_backup()
+                if reason == RestartReason.BAD_JACOBIAN:
+                    delt0r *= 0.9
+                    ijacob += 1
+                else:
                     delt0r /= 1.03
-                    iter1 = iter2
-                    bad_resets += 1
-                    n_restarts += 1
-                    restarted = True
+                iter1 = iter2
+                bad_resets += 1
+                n_restarts += 1
+                restarted = True
 
             if callback is not None:
                 callback(
-- 
2.43.0


From bcb6c7cf936ecf48e713f6542fae338fd02461be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:12 +0000
Subject: [PATCH 02/65] fix: discard the velocity of the abandoned geometry
 when re-initialising after an axis re-guess

---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 27067a2..9609af9 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -886,6 +886,8 @@ absl::StatusOr<Vmec::SolveEqLoopStatus> Vmec::SolveEquilibriumLoop(
   // RESTART FROM INITIAL PROFILE, BUT WITH A SMALLER TIME-STEP
   if (fc_.restart_reason == RestartReason::BAD_JACOBIAN) {
     decomposed_x_[thread_id]->setZero();
+    // the velocity belongs to the abandoned geometry
+    decomposed_v_[thread_id]->setZero();
     if (m_lreset_internal) {
       decomposed_x_[thread_id]->interpFromBoundaryAndAxis(t_, b_,
                                                           *p_[thread_id]);
-- 
2.43.0


From 2b7e543776593c9bf24e7a2ced01630ff1dd0820 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:12 +0000
Subject: [PATCH 03/65] fix: do not let the time step control roll back a
 geometry that has just converged

---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 9609af9..0d0776a 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -1144,7 +1144,12 @@ absl::StatusOr<Vmec::SolveEqLoopStatus> Vmec::SolveEquilibriumLoop(
       fc_.restart_reason = RestartReason::BAD_PROGRESS;
     }
 
-    const RestartReason restart_reason = fc_.restart_reason;
+    // A converged geometry is final: the time step control, which then still
+    // compares the residual of the previous iteration, must not roll it back.
+    const RestartReason restart_reason =
+        status_ == VmecStatus::SUCCESSFUL_TERMINATION
+            ? RestartReason::NO_RESTART
+            : fc_.restart_reason;
 // protect read of restart_reason above from write (in different thread) below
 #ifdef _OPENMP
 #pragma omp barrier
-- 
2.43.0


From 9b559c0828ed76e5e4ad2e6ea1c68aee22d2be40 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:47 +0000
Subject: [PATCH 04/65] fix: refuse a continuation schedule with too few
 ftol_array/niter_array entries before solving any step

---
 src/vmecpp/_continuation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vmecpp/_continuation.py b/src/vmecpp/_continuation.py
index 5fb5725..2a5d5d6 100644
--- a/src/vmecpp/_continuation.py
+++ b/src/vmecpp/_continuation.py
@@ -345,6 +345,16 @@ def _run_fourier_continuation(
     ntor_schedule = _resolve(input.ntor, "ntor")
     ftol_schedule = [float(x) for x in input.ftol_array]
     niter_schedule = [int(x) for x in input.niter_array]
+    for name, schedule in (
+        ("ftol_array", ftol_schedule),
+        ("niter_array", niter_schedule),
+    ):
+        if len(schedule) < n_steps:
+            msg = (
+                f"'{name}' has {len(schedule)} entries, but 'ns_array' has "
+                f"{n_steps}; every continuation step needs its own entry."
+            )
+            raise ValueError(msg)
 
     output = restart_from
     for i in range(n_steps):
-- 
2.43.0


From fa67b413ed69fe51938fa5a4237696963aa2f695 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:47 +0000
Subject: [PATCH 05/65] fix: remove the temporary wout file when moving it into
 place fails

---
 src/vmecpp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 409569e..d5f7830 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1422,13 +1422,13 @@ class VmecWOut(BaseModelWithNumpy):
         tmp_fd, tmp_name = tempfile.mkstemp(
             dir=out_path.parent, prefix=out_path.name + ".", suffix=".tmp"
         )
-        os.close(tmp_fd)
         try:
+            os.close(tmp_fd)
             self._save_to_netcdf3(tmp_name)
+            Path(tmp_name).replace(out_path)
         except BaseException:
             Path(tmp_name).unlink(missing_ok=True)
             raise
-        Path(tmp_name).replace(out_path)
 
     def _save_to_netcdf3(self, out_path: str | Path) -> None:
         """Write the NetCDF3 wout representation of this object to out_path."""
-- 
2.43.0


From e1f3fec6bc748c44788b9eec1cf60718624208f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:47 +0000
Subject: [PATCH 06/65] fix: report a failed final flush when saving a wout
 file instead of publishing a truncated one

---
 src/vmecpp/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index d5f7830..ec69e5f 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1607,6 +1607,10 @@ class VmecWOut(BaseModelWithNumpy):
                     )
                     raise ValueError(msg)
 
+            # Closing the dataset does not report errors of the final flush
+            # (e.g. a full disk), but an explicit sync does.
+            fnc.sync()
+
     @staticmethod
     def _from_cpp_wout(cpp_wout: _vmecpp.VmecppWOut) -> VmecWOut:
         attrs = {}
-- 
2.43.0


From e45c245c8fd6e5bc48a48c0e301f2d0055b6d48d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:10:05 +0000
Subject: [PATCH 07/65] fix: accept FreeBoundaryMethod and IterationStyle
 members in VmecInput

str() of a (str, Enum) member is 'Class.MEMBER', so an enum member (e.g. from
model_dump()) was refused by its own validator.
---
 src/vmecpp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index ec69e5f..627d094 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -172,7 +172,7 @@ def _validate_free_boundary_method(
     """Convert various representations to FreeBoundaryMethod."""
     if isinstance(value, _vmecpp.FreeBoundaryMethod):
         return FreeBoundaryMethod(value.name.lower())  # pyright: ignore[reportAttributeAccessIssue]
-    return FreeBoundaryMethod(str(value))
+    return FreeBoundaryMethod(value)
 
 
 def _validate_iteration_style(
@@ -181,7 +181,7 @@ def _validate_iteration_style(
     """Convert various representations to IterationStyle."""
     if isinstance(value, _vmecpp.IterationStyle):
         return IterationStyle(value.name.lower())  # pyright: ignore[reportAttributeAccessIssue]
-    return IterationStyle(str(value))
+    return IterationStyle(value)
 
 
 # This is a pure Python equivalent of VmecINDATAPyWrapper.
-- 
2.43.0


From dc64393f9b4feb8ec79f561e7137cfdd7af2723a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:10:05 +0000
Subject: [PATCH 08/65] fix: read an all-zero sparse coefficient table back
 from JSON

A table without non-zero entries is serialized as an empty list, which arrives
as an array of shape (0,) and was refused.
---
 src/vmecpp/_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index f5518fc..a29552b 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -403,6 +403,10 @@ def sparse_to_dense_coefficients_implicit(
     (mpol, 2*ntor+1) shape from the maximum mode numbers OR return the original array if
     the input representation is already dense."""
     if isinstance(maybe_sparse_list, np.ndarray):
+        if maybe_sparse_list.shape == (0,):
+            # An empty sparse list (all coefficients are zero) may already have been
+            # converted to an empty array by the generic numpy deserialization.
+            return np.zeros((1, 1))
         return maybe_sparse_list
 
     mpol = 0
-- 
2.43.0


From 40756cab35f9ef1cae326f51a646e3c37fed134d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:10:05 +0000
Subject: [PATCH 09/65] fix: refuse tables that do not fit mpol and ntor
 instead of broadcasting them

With mpol or ntor re-assigned on a VmecInput, numpy broadcast a single-column
table over all toroidal modes.
---
 src/vmecpp/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 627d094..f3b0bfe 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -757,7 +757,16 @@ class VmecInput(BaseModelWithNumpy):
                         "Either set lasym=True or remove the asymmetric field."
                     )
                     raise ValueError(msg)
-                getattr(cpp_indata, attr)[:] = value
+                target = getattr(cpp_indata, attr)
+                # Numpy would happily broadcast e.g. a single axis coefficient over
+                # all toroidal modes if mpol/ntor were re-assigned without resizing.
+                if np.shape(value) != target.shape:
+                    msg = (
+                        f"Field {attr} has shape {np.shape(value)}, but mpol and ntor "
+                        f"require shape {target.shape}."
+                    )
+                    raise ValueError(msg)
+                target[:] = value
 
         return cpp_indata
 
-- 
2.43.0


From 23aa0dd1ff9a2cb533a2d7944ae270b7fec3872c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:10:05 +0000
Subject: [PATCH 10/65] fix: archive and serialize asymmetric input tables
 completely

Eigen's value() yields the first coefficient only.
---
 .../cpp/vmecpp/common/vmec_indata/vmec_indata.cc     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index cd3a0e9..79f60f4 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -312,8 +312,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(raxis_c, "/indata/raxis_c", file);
   WriteH5Dataset(zaxis_s, "/indata/zaxis_s", file);
   if (lasym) {
-    WriteH5Dataset(raxis_s->value(), "/indata/raxis_s", file);
-    WriteH5Dataset(zaxis_c->value(), "/indata/zaxis_c", file);
+    WriteH5Dataset(*raxis_s, "/indata/raxis_s", file);
+    WriteH5Dataset(*zaxis_c, "/indata/zaxis_c", file);
   }
 
   // 2D matrices
@@ -321,8 +321,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(rbc, "/indata/rbc", file);
   WriteH5Dataset(zbs, "/indata/zbs", file);
   if (lasym) {
-    WriteH5Dataset(rbs->value(), "/indata/rbs", file);
-    WriteH5Dataset(zbc->value(), "/indata/zbc", file);
+    WriteH5Dataset(*rbs, "/indata/rbs", file);
+    WriteH5Dataset(*zbc, "/indata/zbc", file);
   }
 
   return absl::OkStatus();
@@ -1200,8 +1200,8 @@ absl::StatusOr<std::string> VmecINDATA::ToJson() const {
   output["raxis_c"] = raxis_c;
   output["zaxis_s"] = zaxis_s;
   if (lasym) {
-    output["raxis_s"] = raxis_s->value();
-    output["zaxis_c"] = zaxis_c->value();
+    output["raxis_s"] = *raxis_s;
+    output["zaxis_c"] = *zaxis_c;
   }
 
   // (Initial Guess for) Boundary Geometry
-- 
2.43.0


From d02721cf5641c3840c34ef933a0ac2fd3efdc58a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:10:05 +0000
Subject: [PATCH 11/65] fix: ignore boundary entries with negative m instead of
 writing out of bounds

---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 79f60f4..0fe248b 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -982,10 +982,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.rbc.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_rbc->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring rbc entry with m = %d, since m is larger than (mpol - 1) "
-            "= %d",
+            "Ignoring rbc entry with m = %d, since m is not in [0, mpol - 1 = "
+            "%d]",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
@@ -1012,10 +1012,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.zbs.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_zbs->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring zbs entry with m = %d, since m is larger than (mpol - 1) "
-            "= %d",
+            "Ignoring zbs entry with m = %d, since m is not in [0, mpol - 1 = "
+            "%d]",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
@@ -1049,10 +1049,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_rbs->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_rbs->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring rbs entry with m = %d, since m is larger than (mpol - "
-              "1) = %d",
+              "Ignoring rbs entry with m = %d, since m is not in [0, mpol - 1 "
+              "= %d]",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
@@ -1079,10 +1079,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_zbc->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_zbc->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring zbc entry with m = %d, since m is larger than (mpol - "
-              "1) = %d",
+              "Ignoring zbc entry with m = %d, since m is not in [0, mpol - 1 "
+              "= %d]",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-- 
2.43.0


From beaa39ba401f67239ce86e512259479ce5114dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:13:28 +0000
Subject: [PATCH 12/65] fix: write the magnetic axis of a VMEC++ input to the
 INDATA namelist

The VMEC++ JSON format calls the axis coefficients raxis_c, zaxis_s, raxis_s
and zaxis_c, but vmecpp_json_to_indata looked them up under their INDATA names
only, so the initial guess for the axis was silently dropped.
---
 src/vmecpp/_util.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index a29552b..98331a7 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -229,10 +229,16 @@ def vmecpp_json_to_indata(vmecpp_json: dict[str, Any]) -> str:
     indata += _int_to_namelist("nvacskip", vmecpp_json)
 
     indata += "\n  ! initial guess for magnetic axis\n"
-    indata += _float_array_to_namelist("raxis_cc", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("raxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cc", vmecpp_json)
+    # VMEC++ uses shorter names for the axis coefficients than the INDATA namelist.
+    for indata_name, vmecpp_name in (
+        ("raxis_cc", "raxis_c"),
+        ("zaxis_cs", "zaxis_s"),
+        ("raxis_cs", "raxis_s"),
+        ("zaxis_cc", "zaxis_c"),
+    ):
+        varname = vmecpp_name if vmecpp_name in vmecpp_json else indata_name
+        axis = {indata_name: vmecpp_json.get(varname)}
+        indata += _float_array_to_namelist(indata_name, axis)
 
     indata += "\n  ! (initial guess for) boundary shape\n"
     indata += _fourier_coefficients_to_namelist("rbc", vmecpp_json)
-- 
2.43.0


From c15570a5f48a5803f8c0a08d30111b08b1dc7117 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:13:28 +0000
Subject: [PATCH 13/65] fix: escape apostrophes in strings written to the
 INDATA namelist

E.g. an mgrid_file path with an apostrophe ended the namelist string early.
---
 src/vmecpp/_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index 98331a7..53c279b 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -262,7 +262,9 @@ def _string_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
     if varname not in vmecpp_json:
         return ""
 
-    return f"  {varname} = '{vmecpp_json[varname]}'\n"
+    # an apostrophe within a Fortran string literal must be doubled
+    value = str(vmecpp_json[varname]).replace("'", "''")
+    return f"  {varname} = '{value}'\n"
 
 
 def _int_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
-- 
2.43.0


From a0047dd0cb661538b49a81d366a3e025973920ee Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:14:20 +0000
Subject: [PATCH 14/65] fix: remove a partially written JSON input when the
 INDATA conversion fails

ensure_vmecpp_input entered its try/finally only after the conversion, so a
failure while the converted file was being copied next to the input (e.g. disk
full) left a truncated NAME.<pid>.json behind.
---
 src/vmecpp/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index f3b0bfe..bab5266 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -2527,16 +2527,19 @@ def ensure_vmecpp_input(input_path: Path) -> Generator[Path, None, None]:
         # concurrently on the same input, as it happens e.g. when the SIMSOPT
         # wrapper is run under `mpirun`.
         configuration_name = _util.get_vmec_configuration_name(input_path)
-        output_file = input_path.with_name(f"{configuration_name}.{os.getpid()}.json")
+        output_file = input_path.with_name(
+            f"{configuration_name}.{os.getpid()}.json"
+        ).resolve()
 
-        vmecpp_input_path = _util.indata_to_json(
-            input_path, output_override=output_file
-        )
-        assert vmecpp_input_path == output_file.resolve()
         try:
+            vmecpp_input_path = _util.indata_to_json(
+                input_path, output_override=output_file
+            )
+            assert vmecpp_input_path == output_file
             yield vmecpp_input_path
         finally:
-            os.remove(vmecpp_input_path)
+            # also remove what a failed conversion might have left behind
+            output_file.unlink(missing_ok=True)
     else:
         # if the file is not a VMEC2000 indata file, we assume
         # it is a VMEC++ JSON input file
-- 
2.43.0


From 4c27a60a1fc1645959911769cf924378e7b31b7c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:21:57 +0000
Subject: [PATCH 15/65] fix: write and read lists of strings in HDF5 files as C
 strings

HDF5 expects an array of char pointers for variable-length strings, but got the
std::string objects themselves: more than one coil current label crashed the
process when the output archive was written or read.
---
 src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
index 1805011..8598f04 100644
--- a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
+++ b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
@@ -32,7 +32,13 @@ void hdf5_io::WriteH5Dataset(const std::vector<std::string>& vs,
   H5::DataSpace dataspace(/*rank=*/1, /*dims=*/&size);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
   H5::DataSet dataset = file.createDataSet(name, str_type, dataspace);
-  dataset.write(vs.data(), str_type);
+  // HDF5 represents variable-length strings as C strings in memory.
+  std::vector<const char*> c_strings;
+  c_strings.reserve(vs.size());
+  for (const std::string& s : vs) {
+    c_strings.push_back(s.c_str());
+  }
+  dataset.write(c_strings.data(), str_type);
 }
 
 void hdf5_io::WriteH5Dataset(const std::string& str, const std::string& name,
@@ -64,9 +70,17 @@ void hdf5_io::ReadH5Dataset(std::vector<std::string>& vs,
   hsize_t size;
   space.getSimpleExtentDims(&size);
 
-  vs.resize(size);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
-  ds.read(vs.data(), str_type);
+  std::vector<char*> c_strings(size, nullptr);
+  ds.read(c_strings.data(), str_type);
+  vs.clear();
+  for (const char* c_string : c_strings) {
+    vs.emplace_back(c_string != nullptr ? c_string : "");
+  }
+  if (size > 0) {
+    // the C strings were allocated by HDF5
+    H5::DataSet::vlenReclaim(c_strings.data(), str_type, space);
+  }
 }
 
 void hdf5_io::ReadH5Dataset(std::string& str, const std::string& dataset,
-- 
2.43.0


From 5b4366c16eba6eae073432d4d89b2fa6fc776a1a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:22:25 +0000
Subject: [PATCH 16/65] fix: do not transpose square coefficient arrays when
 loading an output archive

With as many flux surfaces as Fourier modes, an array in the current layout was
mistaken for one in the legacy (ns, mnmax) layout and loaded transposed.
---
 .../vmecpp/vmec/output_quantities/output_quantities.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 7e7f8ed..6f88223 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1068,6 +1068,10 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   // new format uses (mnmax, ns). Detect by checking if dimensions match.
   // Also handle half-grid arrays that changed from (ns-1, mnmax) to (mnmax,
   // ns).
+  // A square array can only be told apart by the other contents of the file:
+  // "iotas" was introduced together with the new layout.
+  const bool is_legacy_layout =
+      !from_file.nameExists(absl::StrFormat("%s/%s", H5key, "iotas"));
   auto ReadAndTranspose2D = [&](RowMatrixXd& dest, const std::string& name) {
     RowMatrixXd tmp;
     ReadH5Dataset(tmp, absl::StrFormat("%s/%s", H5key, name), from_file);
@@ -1075,7 +1079,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
     // New layout is (mnmax, ns) where mnmax < ns is not guaranteed,
     // so we check if the stored shape matches (mnmax, ns) or (ns, mnmax).
     // We know mnmax and ns from already-read fields.
-    if (tmp.rows() == m_obj.ns &&
+    if ((is_legacy_layout || tmp.rows() != tmp.cols()) &&
+        tmp.rows() == m_obj.ns &&
         (tmp.cols() == m_obj.mnmax || tmp.cols() == m_obj.mnmax_nyq)) {
       dest = tmp.transpose();
     } else {
@@ -1090,7 +1095,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
         if (tmp.rows() == m_obj.ns - 1 && tmp.cols() == mnsize) {
           dest = RowMatrixXd::Zero(mnsize, m_obj.ns);
           dest.rightCols(m_obj.ns - 1) = tmp.transpose();
-        } else if (tmp.rows() == m_obj.ns && tmp.cols() == mnsize) {
+        } else if ((is_legacy_layout || tmp.rows() != tmp.cols()) &&
+                   tmp.rows() == m_obj.ns && tmp.cols() == mnsize) {
           // Old full-grid format (ns, mnsize) e.g. bsubsmns -> transpose
           dest = tmp.transpose();
         } else {
-- 
2.43.0


From 73f0569eb841ac57a9eb495ff4bcf07ba86d9454 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:23:09 +0000
Subject: [PATCH 17/65] fix: keep every wout quantity when the output archive
 is saved and loaded

The iteration history, bdotb, lrfp and input_extension were not archived, and
the external currents of a fixed-boundary run were dropped when loading.
---
 .../output_quantities/output_quantities.cc    | 47 +++++++++++++------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 6f88223..928e9e4 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -52,6 +52,12 @@ VectorXd NonEmptyVectorOr(const Eigen::VectorXd& vec, const double val) {
                   from_file);                                         \
   }
 
+// Read a field that older files do not contain.
+#define READMEMBER_IF_PRESENT(x)                                   \
+  if (from_file.nameExists(absl::StrFormat("%s/%s", H5key, #x))) { \
+    READMEMBER(x);                                                 \
+  }
+
 // Write object to the specified HDF5 file, under key "vmecinternalresults".
 absl::Status vmecpp::VmecInternalResults::WriteTo(H5::H5File& file) const {
   file.createGroup(H5key);
@@ -805,7 +811,7 @@ absl::Status vmecpp::WOutFileContents::WriteTo(H5::H5File& file) const {
   file.createGroup(this->H5key);
 
   WRITEMEMBER(version_);
-  // TODO(jurasic) input_extension
+  WRITEMEMBER(input_extension);
   WRITEMEMBER(signgs);
   WRITEMEMBER(gamma);
   WRITEMEMBER(pcurr_type);
@@ -824,6 +830,7 @@ absl::Status vmecpp::WOutFileContents::WriteTo(H5::H5File& file) const {
   WRITEMEMBER(mpol);
   WRITEMEMBER(ntor);
   WRITEMEMBER(lasym);
+  WRITEMEMBER(lrfp);
   WRITEMEMBER(ns);
   WRITEMEMBER(ftolv);
   WRITEMEMBER(niter);
@@ -857,6 +864,14 @@ absl::Status vmecpp::WOutFileContents::WriteTo(H5::H5File& file) const {
   WRITEMEMBER(fsqr);
   WRITEMEMBER(fsqz);
   WRITEMEMBER(fsql);
+  WRITEMEMBER(itfsq);
+  WRITEMEMBER(fsqt);
+  WRITEMEMBER(force_residual_r);
+  WRITEMEMBER(force_residual_z);
+  WRITEMEMBER(force_residual_lambda);
+  WRITEMEMBER(delbsq);
+  WRITEMEMBER(restart_reason_timetrace);
+  WRITEMEMBER(wdot);
   WRITEMEMBER(iotaf);
   WRITEMEMBER(q_factor);
   WRITEMEMBER(presf);
@@ -877,9 +892,7 @@ absl::Status vmecpp::WOutFileContents::WriteTo(H5::H5File& file) const {
   WRITEMEMBER(phips);
   WRITEMEMBER(over_r);
   WRITEMEMBER(jdotb);
-  // TODO(jurasic) We will deprecate HDF5 soon, regenerate large_cpp_tests
-  // reference files with all quantities once that is done
-  //  WRITEMEMBER(bdotb);
+  WRITEMEMBER(bdotb);
   WRITEMEMBER(bdotgradv);
   WRITEMEMBER(DMerc);
   WRITEMEMBER(DShear);
@@ -941,7 +954,7 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
                   from_file);
     m_obj.version_ = std::stod(version_str);
   }
-  // TODO(jurasic) input_extension
+  READMEMBER_IF_PRESENT(input_extension);
   READMEMBER_COMPAT(signgs, "sign_of_jacobian");
   READMEMBER(gamma);
   READMEMBER(pcurr_type);
@@ -960,6 +973,7 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   READMEMBER(mpol);
   READMEMBER(ntor);
   READMEMBER(lasym);
+  READMEMBER_IF_PRESENT(lrfp);
   READMEMBER(ns);
   READMEMBER(ftolv);
   READMEMBER_COMPAT(niter, "maximum_iterations");
@@ -967,13 +981,10 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   READMEMBER(mgrid_file);
   // Compatibility with HDF5 files that do not have the nextcur and extcur
   // fields yet (before v0.3.3)
-  if (m_obj.lfreeb) {
-    READMEMBER(nextcur);
-    READMEMBER(extcur);
-  } else {
-    m_obj.nextcur = 0;
-    m_obj.extcur = Eigen::Vector<double, 0>::Zero();
-  }
+  m_obj.nextcur = 0;
+  m_obj.extcur = Eigen::Vector<double, 0>::Zero();
+  READMEMBER_IF_PRESENT(nextcur);
+  READMEMBER_IF_PRESENT(extcur);
   READMEMBER(mgrid_mode);
   READMEMBER(wb);
   READMEMBER(wp);
@@ -1000,6 +1011,14 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   READMEMBER(fsqr);
   READMEMBER(fsqz);
   READMEMBER(fsql);
+  READMEMBER_IF_PRESENT(itfsq);
+  READMEMBER_IF_PRESENT(fsqt);
+  READMEMBER_IF_PRESENT(force_residual_r);
+  READMEMBER_IF_PRESENT(force_residual_z);
+  READMEMBER_IF_PRESENT(force_residual_lambda);
+  READMEMBER_IF_PRESENT(delbsq);
+  READMEMBER_IF_PRESENT(restart_reason_timetrace);
+  READMEMBER_IF_PRESENT(wdot);
   READMEMBER_COMPAT(iotaf, "iota_full");
   READMEMBER_COMPAT(q_factor, "safety_factor");
   READMEMBER_COMPAT(presf, "pressure_full");
@@ -1045,9 +1064,7 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
     ReadHalfGridCompat(m_obj.over_r, "overr");
   }
   READMEMBER(jdotb);
-  // TODO(jurasic) We will deprecate HDF5 soon, regenerate large_cpp_tests
-  // reference files with all quantities once that is done
-  //  READMEMBER(bdotb);
+  READMEMBER_IF_PRESENT(bdotb);
   READMEMBER(bdotgradv);
   READMEMBER(DMerc);
   READMEMBER_COMPAT(DShear, "Dshear");
-- 
2.43.0


From c091836b4715003f1b5203f0c1606f897b741dcc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:24:53 +0000
Subject: [PATCH 18/65] fix: leave out quantities that are not present when
 saving a wout file

Quantities missing from an older wout file default to an empty array. Saving
them again wrote arrays full of fill values, or failed for the 2D ones.
---
 src/vmecpp/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index bab5266..680e498 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1529,6 +1529,14 @@ class VmecWOut(BaseModelWithNumpy):
                     continue
                 elif field_type is np.ndarray or field_type is list:
                     value_array = np.array(value)
+                    if (
+                        value_array.size == 0
+                        and field_info is not None
+                        and not field_info.is_required()
+                    ):
+                        # Not present (e.g. in an older wout file): the default is
+                        # restored on loading, but padding it would make up values.
+                        continue
                     # Fallback to default dimension names like dim_00001, dim_00002, etc.
                     shape_string = tuple(
                         [f"dim_{dim:05d}" for dim in value_array.shape]
-- 
2.43.0


From e26a9da5ff221e90f33f38e6afa221f2bd6485e3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:24:53 +0000
Subject: [PATCH 19/65] fix: save profiles with more than the usual number of
 coefficients or knots

All profiles share one dimension in the wout file, so that a profile with more
than 101 knots (e.g. from set_profile on a fine grid) either could not be saved
or made the other profiles come back with fill values appended.
---
 src/vmecpp/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 680e498..49ac655 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1591,6 +1591,16 @@ class VmecWOut(BaseModelWithNumpy):
                             )
                         shape_string = tuple(inferred_shape)
 
+                    if shape_string in (("preset",), ("ndfmax",)):
+                        # All profiles share these dimensions, except for those
+                        # with more coefficients or knots than usual.
+                        (dim_name,) = shape_string
+                        if (
+                            dim_name in fnc.dimensions
+                            and len(value_array) != fnc.dimensions[dim_name].size
+                        ):
+                            shape_string = (f"dim_{len(value_array):05d}",)
+
                     for dim_name, dim_size in zip(
                         shape_string, value_array.shape, strict=True
                     ):
-- 
2.43.0


From 26e4eef05490ac58e20f479dcf8a7beaabc001fe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:57:41 +0000
Subject: [PATCH 20/65] fix: refuse tolerance and iteration schedules shorter
 than ns_array

IsConsistent read past the end of ftol_array and niter_array.
---
 .../cpp/vmecpp/common/vmec_indata/vmec_indata.cc     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 0fe248b..eeb34be 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1321,6 +1321,12 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   // ftol_array
+  if (vmec_indata.ftol_array.size() < vmec_indata.ns_array.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variable 'ftol_array' needs one entry per entry of 'ns_array': "
+        "expected %ld, but found %ld\n",
+        vmec_indata.ns_array.size(), vmec_indata.ftol_array.size()));
+  }
   for (Eigen::VectorXi::Index idx = 0; idx < vmec_indata.ns_array.size();
        ++idx) {
     double ftol = vmec_indata.ftol_array[idx];
@@ -1333,6 +1339,12 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   // niter_array
+  if (vmec_indata.niter_array.size() < vmec_indata.ns_array.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variable 'niter_array' needs one entry per entry of 'ns_array': "
+        "expected %ld, but found %ld\n",
+        vmec_indata.ns_array.size(), vmec_indata.niter_array.size()));
+  }
   for (Eigen::VectorXi::Index idx = 0; idx < vmec_indata.ns_array.size();
        ++idx) {
     int niter = vmec_indata.niter_array[idx];
-- 
2.43.0


From e2aff207c50b9352ea260756a98af6d65321a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:57:41 +0000
Subject: [PATCH 21/65] fix: refuse asymmetric inputs whose asymmetric arrays
 are not set

IsConsistent dereferenced empty optionals.
---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index eeb34be..158f86c 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1535,6 +1535,11 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   if (vmec_indata.lasym) {
+    if (!vmec_indata.raxis_s.has_value() || !vmec_indata.zaxis_c.has_value()) {
+      return absl::InvalidArgumentError(
+          "input variables 'raxis_s' and 'zaxis_c' must be set when 'lasym' is "
+          "true.");
+    }
     // raxis_s
     if (vmec_indata.raxis_s->size() != expected_axis_size) {
       return absl::InvalidArgumentError(
@@ -1593,6 +1598,10 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   if (vmec_indata.lasym) {
+    if (!vmec_indata.rbs.has_value() || !vmec_indata.zbc.has_value()) {
+      return absl::InvalidArgumentError(
+          "input variables 'rbs' and 'zbc' must be set when 'lasym' is true.");
+    }
     // rbs
     if (vmec_indata.rbs->rows() != vmec_indata.mpol) {
       return absl::InvalidArgumentError(
-- 
2.43.0


From 20162e8920f06a66e45372cbd9ac3db7a4b1d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:57:42 +0000
Subject: [PATCH 22/65] fix: refuse a negative nvacskip also in fixed-boundary
 inputs

It used to abort the process.
---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 158f86c..111be85 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1444,6 +1444,13 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
 
   /* --------------------------------- */
 
+  // nvacskip
+  if (vmec_indata.nvacskip < 0) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variable nvacskip must not be negative, but is %d\n",
+        vmec_indata.nvacskip));
+  }
+
   // lfreeb
   // nothing to check here: lfreeb can be true or false and both are valid...
   if (vmec_indata.lfreeb) {
-- 
2.43.0


From afcb1913662a354c5277878ef28ecb5deff5cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:57:42 +0000
Subject: [PATCH 23/65] fix: check the input and the thread count before
 setting up a run

The constructor aborts the process on values that IsConsistent refuses.
---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 0d0776a..668f1d1 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -147,6 +147,17 @@ absl::StatusOr<std::unique_ptr<Vmec>> Vmec::FromIndata(
     const makegrid::MagneticFieldResponseTable* magnetic_response_table,
     std::optional<int> max_threads, OutputMode verbose,
     InterruptCallback interrupt_callback) {
+  // The constructor aborts on inputs it cannot work with, so check them first.
+  const absl::Status consistency =
+      IsConsistent(indata, /*enable_info_messages=*/false);
+  if (!consistency.ok()) {
+    return consistency;
+  }
+  if (max_threads.has_value() && *max_threads <= 0) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "the number of threads must be >= 1, but is %d", *max_threads));
+  }
+
   auto v = std::make_unique<Vmec>(indata, max_threads, verbose,
                                   std::move(interrupt_callback));
 
-- 
2.43.0


From 7a7f96a1068f69c9acb82d87123d2a4d1f3f9596 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:57:42 +0000
Subject: [PATCH 24/65] fix: refuse JSON integers that do not fit

They used to be wrapped silently into some other value.
---
 src/vmecpp/cpp/util/json_io/json_io.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/vmecpp/cpp/util/json_io/json_io.cc b/src/vmecpp/cpp/util/json_io/json_io.cc
index 86f8178..65f2fa3 100644
--- a/src/vmecpp/cpp/util/json_io/json_io.cc
+++ b/src/vmecpp/cpp/util/json_io/json_io.cc
@@ -4,6 +4,8 @@
 // SPDX-License-Identifier: MIT
 #include "util/json_io/json_io.h"
 
+#include <cstdint>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -11,7 +13,18 @@
 
 namespace {
 using nlohmann::json;
+
+// Whether the JSON element is an integer which can be represented as an int.
+bool FitsIntoInt(const json& element) {
+  if (element.is_number_unsigned()) {
+    return element.get<std::uint64_t>() <=
+           static_cast<std::uint64_t>(std::numeric_limits<int>::max());
+  }
+  const std::int64_t value = element.get<std::int64_t>();
+  return value >= std::numeric_limits<int>::min() &&
+         value <= std::numeric_limits<int>::max();
 }
+}  // namespace
 
 namespace json_io {
 
@@ -42,6 +55,11 @@ absl::StatusOr<std::optional<int>> JsonReadInt(const json& j,
         absl::StrFormat("JSON element '%s' is not an integer", name));
   }
 
+  if (!FitsIntoInt(j[name])) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("JSON element '%s' is out of range", name));
+  }
+
   return j[name];
 }  // JsonReadInt
 
@@ -91,6 +109,10 @@ absl::StatusOr<std::optional<Eigen::VectorXi>> JsonReadVectorInt(
   int i = 0;
   for (const auto& entry : j[name]) {
     if (entry.is_number_integer()) {
+      if (!FitsIntoInt(entry)) {
+        return absl::InvalidArgumentError(
+            absl::StrFormat("JSON entry '%s'[%d] is out of range", name, i));
+      }
       entries.push_back(entry);
     } else {
       return absl::InvalidArgumentError(
-- 
2.43.0


From b21cbf26b51616a9e7ecff007623daeac975b008 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:58:37 +0000
Subject: [PATCH 25/65] fix: refuse spline profiles with a different number of
 knots and values

Only inputs read from JSON files were checked for this.
---
 .../cpp/vmecpp/common/vmec_indata/vmec_indata.cc  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 111be85..35d8687 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1382,6 +1382,21 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   // am_aux_s
   // am_aux_f
   // TODO(jons): must be given for spline data profiles
+  if (vmec_indata.am_aux_f.size() != vmec_indata.am_aux_s.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "length of am_aux_f (%ld) does not match length of am_aux_s (%ld)\n",
+        vmec_indata.am_aux_f.size(), vmec_indata.am_aux_s.size()));
+  }
+  if (vmec_indata.ai_aux_f.size() != vmec_indata.ai_aux_s.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "length of ai_aux_f (%ld) does not match length of ai_aux_s (%ld)\n",
+        vmec_indata.ai_aux_f.size(), vmec_indata.ai_aux_s.size()));
+  }
+  if (vmec_indata.ac_aux_f.size() != vmec_indata.ac_aux_s.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "length of ac_aux_f (%ld) does not match length of ac_aux_s (%ld)\n",
+        vmec_indata.ac_aux_f.size(), vmec_indata.ac_aux_s.size()));
+  }
 
   // pres_scale
   if (vmec_indata.pres_scale < 0) {
-- 
2.43.0


From e34c2c58d2dc8747311a0539e3b26579b1e0d10f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:58:37 +0000
Subject: [PATCH 26/65] fix: refuse to set up a step-wise model with fewer than
 three surfaces

It used to access memory out of bounds.
---
 src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index b011b5b..b9fb2ed 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -169,6 +169,11 @@ class VmecModel {
   static std::unique_ptr<VmecModel> Create(
       const VmecINDATA &indata, int ns,
       const std::optional<vmecpp::HotRestartState> &initial_state) {
+    if (ns < 3) {
+      throw std::invalid_argument(
+          "the number of flux surfaces must be at least 3, but is " +
+          std::to_string(ns));
+    }
     auto vmec_or = vmecpp::Vmec::FromIndata(
         indata, /*magnetic_response_table=*/nullptr, /*max_threads=*/1,
         vmecpp::OutputMode::kSilent);
-- 
2.43.0


From 0a0122fec3d108e6a1ff104b03425e597fbb297a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:11:00 +0000
Subject: [PATCH 27/65] fix: refuse fractional mpol and ntor

The fractional part used to be dropped silently.
---
 src/vmecpp/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 49ac655..7e6f491 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -89,6 +89,9 @@ def _coerce_mpol_ntor(value: typing.Any) -> int | np.ndarray:
     if isinstance(value, (int, np.integer)):
         return int(value)
     array = np.atleast_1d(np.asarray(value, dtype=np.int64))
+    if np.asarray(value).dtype.kind == "f" and np.any(array != np.asarray(value)):
+        msg = f"mpol and ntor need to be integers, got {value}"
+        raise ValueError(msg)
     return int(array[0]) if array.size == 1 else array
 
 
-- 
2.43.0


From 9022cf5514e0272f67ca1ece21bc8d5977f13fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:11:00 +0000
Subject: [PATCH 28/65] fix: refuse integer arrays whose values do not fit the
 solver's integers

They used to wrap around into some other value.
---
 src/vmecpp/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 7e6f491..7b94577 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -722,7 +722,13 @@ class VmecInput(BaseModelWithNumpy):
                 "iteration_style",
             ):
                 continue  # these must be set separately
-            setattr(cpp_indata, attr, getattr(self, attr))
+            value = getattr(self, attr)
+            if isinstance(value, np.ndarray) and value.dtype.kind in "iu":
+                limits = np.iinfo(np.int32)
+                if np.any((value < limits.min) | (value > limits.max)):
+                    msg = f"values of {attr} are out of range: {value}"
+                    raise ValueError(msg)
+            setattr(cpp_indata, attr, value)
 
         # Convert Python enum to C++ enum
         cpp_indata.free_boundary_method = getattr(
-- 
2.43.0


From f21c048d9d9a072ac4d081a7e5bea41ea51967be Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:13:10 +0000
Subject: [PATCH 29/65] fix: check the toroidal grid of the external field also
 for step-wise models

Only Vmec::run refused a table on another number of toroidal planes.
---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 28 +++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 668f1d1..0de7b86 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -142,6 +142,21 @@ absl::StatusOr<vmecpp::OutputQuantities> vmecpp::run(
 
 namespace vmecpp {
 
+namespace {
+// The tabulated external field must be given on the toroidal grid of the solve.
+absl::Status CheckToroidalGrid(const MGridProvider& mgrid,
+                               const VmecINDATA& indata) {
+  if (mgrid.numPhi != indata.nzeta) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "MGridProvider has %d phi grid points, but VmecINDATA "
+        "has %d nzeta grid points. Please ensure that the two "
+        "are consistent.",
+        mgrid.numPhi, indata.nzeta));
+  }
+  return absl::OkStatus();
+}
+}  // namespace
+
 absl::StatusOr<std::unique_ptr<Vmec>> Vmec::FromIndata(
     const VmecINDATA& indata,
     const makegrid::MagneticFieldResponseTable* magnetic_response_table,
@@ -173,6 +188,10 @@ absl::StatusOr<std::unique_ptr<Vmec>> Vmec::FromIndata(
     if (!s.ok()) {
       return s;
     }
+    s = CheckToroidalGrid(v->mgrid_, indata);
+    if (!s.ok()) {
+      return s;
+    }
   }
 
   return v;
@@ -247,12 +266,9 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
         return status;
       }
     }
-    if (mgrid_.numPhi != indata_.nzeta) {
-      return absl::InvalidArgumentError(absl::StrFormat(
-          "MGridProvider has %d phi grid points, but VmecINDATA "
-          "has %d nzeta grid points. Please ensure that the two "
-          "are consistent.",
-          mgrid_.numPhi, indata_.nzeta));
+    absl::Status status = CheckToroidalGrid(mgrid_, indata_);
+    if (!status.ok()) {
+      return status;
     }
   }
 
-- 
2.43.0


From 817438d0db83cb222bfb79b394cdb49d5036a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:34:08 +0000
Subject: [PATCH 30/65] fix: refuse malformed numbers in coils files

std::stod and std::stoi stop at the first character they do not understand,
so that '1.5D+02' was read as 1.5, and throw if there is no number at all.
---
 .../magnetic_configuration_lib.cc             | 35 +++++++++++++++----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index b4e629c..64a4b26 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -6,6 +6,7 @@
 
 #include <Eigen/Dense>
 #include <algorithm>
+#include <array>
 #include <cctype>
 #include <cstring>
 #include <fstream>
@@ -20,6 +21,7 @@
 #include "absl/log/log.h"
 #include "absl/status/status.h"
 #include "absl/strings/ascii.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_split.h"
 #include "util/file_io/file_io.h"
@@ -70,16 +72,29 @@ absl::Status ParseCurrentCarriers(
 
     if (num_line_parts == 4 || num_line_parts == 6) {
       // handle first four columns: x, y, z, w
-      x.push_back(std::stod(line_parts[0]));  // x or r
-      y.push_back(std::stod(line_parts[1]));  // y or 0.0
-      z.push_back(std::stod(line_parts[2]));  // z
-      w.push_back(std::stod(line_parts[3]));  // num_windings or 0.0 or current
-                                              // or any product of those
+      std::array<double, 4> numbers;
+      for (size_t i = 0; i < numbers.size(); ++i) {
+        if (!absl::SimpleAtod(line_parts[i], &numbers[i])) {
+          return absl::InvalidArgumentError(
+              absl::StrCat("cannot parse line: '", stripped_line, "': '",
+                           line_parts[i], "' is not a number"));
+        }
+      }
+      x.push_back(numbers[0]);  // x or r
+      y.push_back(numbers[1]);  // y or 0.0
+      z.push_back(numbers[2]);  // z
+      w.push_back(numbers[3]);  // num_windings or 0.0 or current
+                                // or any product of those
 
       if (num_line_parts == 6) {
         // handle six columns: x, y, z, 0.0, serial_circuit_id,
         // current_carrier_name
-        int serial_circuit_id = std::stoi(line_parts[4]);
+        int serial_circuit_id = 0;
+        if (!absl::SimpleAtoi(line_parts[4], &serial_circuit_id)) {
+          return absl::InvalidArgumentError(
+              absl::StrCat("cannot parse line: '", stripped_line, "': '",
+                           line_parts[4], "' is not a circuit number"));
+        }
         std::string current_carrier_name = line_parts[5];
 
         // find or create target serial circuit based on circuit ID
@@ -183,7 +198,13 @@ absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
                       << stripped_line << "'";
         return absl::NotFoundError(error_message.str());
       } else {
-        magnetic_configuration.set_num_field_periods(std::stoi(line_parts[1]));
+        int num_field_periods = 0;
+        if (!absl::SimpleAtoi(line_parts[1], &num_field_periods)) {
+          return absl::InvalidArgumentError(absl::StrCat(
+              "number of field periods is not an integer on line '",
+              stripped_line, "'"));
+        }
+        magnetic_configuration.set_num_field_periods(num_field_periods);
       }
     } else if (absl::StartsWith(stripped_line, "begin filament")) {
       // expect current carrier geometry starting on next line until line "end"
-- 
2.43.0


From 8d9e00da03c93464305dc53416e45db9e50382db Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:34:08 +0000
Subject: [PATCH 31/65] fix: refuse coils files that end inside a filament

Its points used to be dropped silently.
---
 .../magnetic_configuration_lib/magnetic_configuration_lib.cc  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index 64a4b26..d2aa0f0 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -62,6 +62,10 @@ absl::Status ParseCurrentCarriers(
       continue;
     } else if (absl::StartsWith(stripped_line, "end")) {
       // current carrier geometry ended on this line
+      if (!x.empty()) {
+        return absl::InvalidArgumentError(
+            "the last filament in the makegrid_coils file is not complete");
+      }
       return absl::OkStatus();
     }
 
-- 
2.43.0


From 0461cfb63b012de219d18bbb615137c61ff0eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:34:08 +0000
Subject: [PATCH 32/65] fix: refuse coils files without a filament section

Any other text used to be read as an empty configuration.
---
 .../magnetic_configuration_lib.cc                          | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index d2aa0f0..e9dd15a 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -185,6 +185,7 @@ absl::Status ParseCurrentCarriers(
 absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
     const std::string& makegrid_coils) {
   MagneticConfiguration magnetic_configuration;
+  bool found_filaments = false;
 
   std::stringstream makegrid_coils_ss(makegrid_coils);
   for (std::string raw_line; std::getline(makegrid_coils_ss, raw_line);
@@ -212,6 +213,7 @@ absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
       }
     } else if (absl::StartsWith(stripped_line, "begin filament")) {
       // expect current carrier geometry starting on next line until line "end"
+      found_filaments = true;
       absl::Status status =
           ParseCurrentCarriers(makegrid_coils_ss, magnetic_configuration);
       if (status != absl::OkStatus()) {
@@ -223,6 +225,11 @@ absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
     }
   }
 
+  if (!found_filaments) {
+    return absl::NotFoundError(
+        "did not find 'begin filament' line in makegrid_coils file");
+  }
+
   return magnetic_configuration;
 }  // ImportMagneticConfigurationFromMakegrid
 
-- 
2.43.0


From c0a8b0bb3d325cc936abe785480c8ded76acdd1e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:02:24 +0000
Subject: [PATCH 33/65] fix: refuse response tables that do not match their
 grid

LoadFields read past the end of b_r, b_p or b_z when the arrays had fewer
rows or columns than the number of circuits and the grid parameters ask for.
---
 .../mgrid_provider/mgrid_provider.cc          | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
index b1291d8..36a6519 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
@@ -263,6 +263,29 @@ absl::Status MGridProvider::LoadFields(
         coil_currents.size(), magnetic_response_table.b_p.rows()));
   }
 
+  absl::Status parameters_status =
+      makegrid::IsValidMakegridParameters(mgrid_params);
+  if (!parameters_status.ok()) {
+    return parameters_status;
+  }
+  for (const makegrid::RowMatrixXd* b :
+       {&magnetic_response_table.b_r, &magnetic_response_table.b_p,
+        &magnetic_response_table.b_z}) {
+    if (b->rows() != coil_currents.size() ||
+        b->cols() !=
+            static_cast<Eigen::Index>(mgrid_params.number_of_phi_grid_points) *
+                mgrid_params.number_of_z_grid_points *
+                mgrid_params.number_of_r_grid_points) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "A field component in the response table has %d x %d entries, which "
+          "does not match %d circuits on a grid of %d x %d x %d points.",
+          b->rows(), b->cols(), coil_currents.size(),
+          mgrid_params.number_of_phi_grid_points,
+          mgrid_params.number_of_z_grid_points,
+          mgrid_params.number_of_r_grid_points));
+    }
+  }
+
   nfp = mgrid_params.number_of_field_periods;
 
   numR = mgrid_params.number_of_r_grid_points;
-- 
2.43.0


From 4ad964ddc09ccf16db20c234c6339a3c34eb56a3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:02:24 +0000
Subject: [PATCH 34/65] fix: refuse mgrid files with a degenerate grid

A single grid point in R or Z makes the interpolation divide by zero, and an
empty grid makes it read out of bounds.
---
 .../free_boundary/mgrid_provider/mgrid_provider.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
index 36a6519..2101d92 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
@@ -148,6 +148,20 @@ absl::Status MGridProvider::LoadFile(const std::filesystem::path& filename,
     return with_context(read_status);
   }
 
+  absl::Status grid_status = makegrid::IsValidMakegridParameters(
+      {.number_of_field_periods = *nfp_or,
+       .r_grid_minimum = *min_r_or,
+       .r_grid_maximum = *max_r_or,
+       .number_of_r_grid_points = *num_r_or,
+       .z_grid_minimum = *min_z_or,
+       .z_grid_maximum = *max_z_or,
+       .number_of_z_grid_points = *num_z_or,
+       .number_of_phi_grid_points = *num_phi_or});
+  if (!grid_status.ok()) {
+    nc_close(ncid);
+    return with_context(grid_status);
+  }
+
   nfp = *nfp_or;
 
   numR = *num_r_or;
-- 
2.43.0


From c674c678bb44a7c93077dae929b25f04785c069e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:02:24 +0000
Subject: [PATCH 35/65] fix: convert netCDF arrays to double when reading them

The untyped nc_get_vara copied the raw elements, so single-precision arrays
ended up as garbage.
---
 src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
index eef6215..3fc77f5 100644
--- a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
+++ b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
@@ -247,8 +247,8 @@ absl::StatusOr<std::vector<double> > NetcdfReadArray1D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -283,8 +283,8 @@ absl::StatusOr<std::vector<std::vector<double> > > NetcdfReadArray2D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -327,8 +327,8 @@ NetcdfReadArray3D(int ncid, const std::string& variable_name) {
   size_t total_element_count = dimensions[0] * dimensions[1] * dimensions[2];
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
-- 
2.43.0


From 0c20c287b03391ccc1c0c6cc2c25e3b8029bbca8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:02:24 +0000
Subject: [PATCH 36/65] fix: report an unreadable makegrid parameters file
 instead of aborting

---
 src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index 8233056..1737dd2 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -274,7 +274,9 @@ absl::StatusOr<MakegridParameters> ImportMakegridParametersFromFile(
     const std::filesystem::path& makegrid_parameters_file) {
   const auto maybe_makegrid_params_json =
       file_io::ReadFile(makegrid_parameters_file);
-  CHECK_OK(maybe_makegrid_params_json);
+  if (!maybe_makegrid_params_json.ok()) {
+    return maybe_makegrid_params_json.status();
+  }
   const auto& makegrid_params_json = *maybe_makegrid_params_json;
   return ImportMakegridParametersFromJson(makegrid_params_json);
 }  // ImportMakegridParametersFromFile
-- 
2.43.0


From c1b46b5eee3d9f7b794f202570e10ecd1b2ea63f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:02:24 +0000
Subject: [PATCH 37/65] fix: refuse stellarator-symmetric field tables on an
 up-down asymmetric grid

The mirrored planes were filled with the field of the wrong points.
---
 .../cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc       | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index 1737dd2..8f14c40 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -314,6 +314,15 @@ absl::StatusOr<RowMatrix3Xd> MakeCylindricalGrid(
           "make use to stellarator symmetry in makegrid, but was num_phi=",
           num_phi));
     }
+    // The upper half of the grid is mirrored into the lower half and vice
+    // versa, which only works if the grid itself is symmetric about Z=0.
+    if (std::abs(min_z + max_z) > 1.0e-10 * (max_z - min_z)) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "the Z grid has to be symmetric for being able to make use of "
+          "stellarator symmetry in makegrid, but is from z_grid_minimum = "
+          "% .3e to z_grid_maximum = % .3e",
+          min_z, max_z));
+    }
     num_phi_effective = num_phi / 2 + 1;
   }
 
-- 
2.43.0


From cd5e96363c2a68daaabdaa3a06c9e634425fc921 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:02:24 +0000
Subject: [PATCH 38/65] fix: refuse an external field with another number of
 field periods

The planes of the table were used as if they covered a field period of the
plasma.
---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 0de7b86..4b779cf 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -153,6 +153,13 @@ absl::Status CheckToroidalGrid(const MGridProvider& mgrid,
         "are consistent.",
         mgrid.numPhi, indata.nzeta));
   }
+  // a single plane carries no information on the toroidal periodicity
+  if (mgrid.numPhi > 1 && mgrid.nfp != indata.nfp) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "MGridProvider has %d field periods, but VmecINDATA has nfp = %d. "
+        "Please ensure that the two are consistent.",
+        mgrid.nfp, indata.nfp));
+  }
   return absl::OkStatus();
 }
 }  // namespace
-- 
2.43.0


From e59527369f243a3faf060ef6d3999799d404e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:02:24 +0000
Subject: [PATCH 39/65] fix: do not replace a field table by the one its arrays
 were taken from

A MagneticFieldResponseTable that combines the arrays of a computed table
differently, or with other grid parameters, was solved with the original one.
---
 src/vmecpp/_free_boundary.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/_free_boundary.py b/src/vmecpp/_free_boundary.py
index 690554c..8381c5a 100644
--- a/src/vmecpp/_free_boundary.py
+++ b/src/vmecpp/_free_boundary.py
@@ -127,8 +127,18 @@ class MagneticFieldResponseTable(BaseModelWithNumpy):
         underlying = self.b_r.base
         if (
             isinstance(underlying, _vmecpp.MagneticFieldResponseTable)
-            and underlying == self.b_p.base
-            and underlying == self.b_z.base
+            and all(
+                mine.ctypes.data == theirs.ctypes.data
+                and mine.shape == theirs.shape
+                and mine.strides == theirs.strides
+                for mine, theirs in (
+                    (self.b_r, underlying.b_r),
+                    (self.b_p, underlying.b_p),
+                    (self.b_z, underlying.b_z),
+                )
+            )
+            and self.parameters
+            == MakegridParameters._from_cpp_makegrid_parameters(underlying.parameters)
         ):
             return underlying
         # Otherwise, create a new C++ object
-- 
2.43.0


From b4cce2decc596209544469b0e0fbf6b8a2617dad Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:12:17 +0000
Subject: [PATCH 40/65] fix: compare the external field with the toroidal grid
 actually used

When nzeta in the input is below the Nyquist limit of ntor, the solve uses a
finer grid and read the field of planes that are not in the table.
---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 4b779cf..28b35e4 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -144,21 +144,22 @@ namespace vmecpp {
 
 namespace {
 // The tabulated external field must be given on the toroidal grid of the solve.
-absl::Status CheckToroidalGrid(const MGridProvider& mgrid,
-                               const VmecINDATA& indata) {
-  if (mgrid.numPhi != indata.nzeta) {
+// NOTE: nZeta in Sizes may be larger than nzeta in VmecINDATA, as it gets
+// adjusted to satisfy the Nyquist criterion.
+absl::Status CheckToroidalGrid(const MGridProvider& mgrid, const Sizes& s) {
+  if (mgrid.numPhi != s.nZeta) {
     return absl::InvalidArgumentError(absl::StrFormat(
-        "MGridProvider has %d phi grid points, but VmecINDATA "
-        "has %d nzeta grid points. Please ensure that the two "
+        "MGridProvider has %d phi grid points, but the solve "
+        "uses %d nzeta grid points. Please ensure that the two "
         "are consistent.",
-        mgrid.numPhi, indata.nzeta));
+        mgrid.numPhi, s.nZeta));
   }
   // a single plane carries no information on the toroidal periodicity
-  if (mgrid.numPhi > 1 && mgrid.nfp != indata.nfp) {
+  if (mgrid.numPhi > 1 && mgrid.nfp != s.nfp) {
     return absl::InvalidArgumentError(absl::StrFormat(
         "MGridProvider has %d field periods, but VmecINDATA has nfp = %d. "
         "Please ensure that the two are consistent.",
-        mgrid.nfp, indata.nfp));
+        mgrid.nfp, s.nfp));
   }
   return absl::OkStatus();
 }
@@ -195,7 +196,7 @@ absl::StatusOr<std::unique_ptr<Vmec>> Vmec::FromIndata(
     if (!s.ok()) {
       return s;
     }
-    s = CheckToroidalGrid(v->mgrid_, indata);
+    s = CheckToroidalGrid(v->mgrid_, v->s_);
     if (!s.ok()) {
       return s;
     }
@@ -273,7 +274,7 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
         return status;
       }
     }
-    absl::Status status = CheckToroidalGrid(mgrid_, indata_);
+    absl::Status status = CheckToroidalGrid(mgrid_, s_);
     if (!status.ok()) {
       return status;
     }
-- 
2.43.0


From 229a3ac6d167fc6a3cde72a77f08b3eed6ca776d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:38:03 +0000
Subject: [PATCH 41/65] fix: run the solve with as many threads as it was set
 up for

The number of OpenMP threads is process-wide and may have been changed by
another run since the radial ranges were distributed.
---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 28b35e4..c99b9cd 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -825,7 +825,7 @@ absl::StatusOr<bool> Vmec::SolveEquilibrium(
 
 // NOTE: *THIS* is the main parallel region for the equilibrium solver
 #ifdef _OPENMP
-#pragma omp parallel
+#pragma omp parallel num_threads(num_threads_)
 #endif  // _OPENMP
   {
 #ifdef _OPENMP
-- 
2.43.0


From d5d75f480dac566284598760c4a9547da7f920da Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:38:03 +0000
Subject: [PATCH 42/65] fix: respect OMP_THREAD_LIMIT when distributing work
 over threads

Fewer granted threads than radial ranges left flux surfaces unattended.
---
 src/vmecpp/cpp/vmecpp/common/util/util.cc | 14 +++++++++++++-
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc   |  9 +++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/util/util.cc b/src/vmecpp/cpp/vmecpp/common/util/util.cc
index 37cb90f..c26921d 100644
--- a/src/vmecpp/cpp/vmecpp/common/util/util.cc
+++ b/src/vmecpp/cpp/vmecpp/common/util/util.cc
@@ -325,6 +325,9 @@ int vmec_adjust_num_threads(const int max_threads,
   int num_threads = std::min(max_threads, num_surfaces_to_distribute / 2);
 
 #ifdef _OPENMP
+  // The runtime never grants more threads than this (OMP_THREAD_LIMIT).
+  num_threads = std::min(num_threads, omp_get_thread_limit());
+
   // This must be done _before_ the '#pragma omp parallel' is entered.
   omp_set_num_threads(num_threads);
 
@@ -343,7 +346,16 @@ int vmec_adjust_vacuum_num_threads(const int max_threads, const int n_znt) {
   // max_threads. Deliberately does NOT call omp_set_num_threads: the vacuum
   // solve runs in a nested parallel region with an explicit num_threads()
   // clause.
-  return std::min(max_threads, n_znt);
+  int num_threads = std::min(max_threads, n_znt);
+
+#ifdef _OPENMP
+  // The vacuum threads exist in addition to the other threads of the radial
+  // solve; both together must stay within OMP_THREAD_LIMIT.
+  const int num_available = omp_get_thread_limit() - (max_threads - 1);
+  num_threads = std::min(num_threads, std::max(1, num_available));
+#endif
+
+  return num_threads;
 }
 
 }  // namespace vmecpp
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index c99b9cd..afdfb8a 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -841,6 +841,15 @@ absl::StatusOr<bool> Vmec::SolveEquilibrium(
 
     absl::StatusOr<SolveEqLoopStatus> s = SolveEqLoopStatus::MUST_RETRY;
 
+#ifdef _OPENMP
+    // The radial ranges only cover all flux surfaces if every thread_id runs.
+    if (omp_get_num_threads() != num_threads_) {
+      s = absl::ResourceExhaustedError(absl::StrFormat(
+          "Requested %d threads, but the OpenMP runtime granted %d.",
+          num_threads_, omp_get_num_threads()));
+    }
+#endif  // _OPENMP
+
     // n_local_eqsolve_retries is a thread-local counter
     // max iterations only to ensure this terminates eventually, should never be
     // reached.
-- 
2.43.0


From 3ff80845232a32809dbcbb2473c951e85e0d3c7d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:50:25 +0000
Subject: [PATCH 43/65] fix: keep the lambda scaling when a stage repeats or
 skips a resolution

run() cleared VmecConstants before every multigrid stage, but lamscale is
only recomputed when the number of flux surfaces changes. A stage with
the same ns therefore divided by zero (and ended as BAD_JACOBIAN), and a
skipped entry left the outputs without the lambda scaling.
---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index afdfb8a..c5a6173 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -331,8 +331,6 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
 
     const int max_grids = std::min(fc_.multi_ns_grid, maximum_multi_grid_step);
     for (int igrid = -jacob_off_; igrid < max_grids; igrid++) {
-      constants_.reset();
-
       // retrieve settings for (ns, ftol, niter) for current multi-grid
       // iteration
       if (igrid < 0) {
@@ -725,6 +723,8 @@ bool Vmec::InitializeRadial(
     }
 
     // COMPUTE INITIAL R, Z AND MAGNETIC FLUX PROFILES
+    // (accumulates the constants, which stay valid if ns does not change)
+    constants_.reset();
     for (int thread_id = 0; thread_id < num_threads_; ++thread_id) {
       p_[thread_id]->evalRadialProfiles(fc_.haveToFlipTheta, constants_);
     }
-- 
2.43.0


From dddc666c13422adb7dc9d30a2a5a63ee26d30034 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:52:24 +0000
Subject: [PATCH 44/65] fix: interpolate line_segment profiles within the
 segment that contains the position

evalLineSegment took the segment after the one containing x, so values between
two knots were extrapolated from the neighbouring segment, and the last segment
was replaced by a constant.
---
 .../vmecpp/vmec/radial_profiles/radial_profiles.cc  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 9bbd514..ff58b4a 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1055,18 +1055,19 @@ double RadialProfiles::evalLineSegment(const Eigen::VectorXd& splineKnots,
   if (n < 2 || n != static_cast<int>(splineValues.size())) {
     return 0.0;
   }
-  auto it = std::lower_bound(splineKnots.begin(), splineKnots.end(), x);
-  if (it >= (splineKnots.end() - 1)) {
-    // x is out of bounds (or x1 = it+1 would be out of bounds)
+  // first knot that is strictly above x
+  auto it = std::upper_bound(splineKnots.begin(), splineKnots.end(), x);
+  if (it == splineKnots.end()) {
+    // x is at or above the last knot
     return splineValues[n - 1];
   }
   if (it == splineKnots.begin()) {
     // x is below the first knot
     return splineValues[0];
   }
-  const double x0 = *it;
-  const double x1 = *(it + 1);
-  int ilow = static_cast<int>(std::distance(splineKnots.begin(), it));
+  const double x0 = *(it - 1);
+  const double x1 = *it;
+  int ilow = static_cast<int>(std::distance(splineKnots.begin(), it)) - 1;
   const double y0 = splineValues[ilow];
   const double y1 = splineValues[ilow + 1];
   const double t = (x - x0) / (x1 - x0);
-- 
2.43.0


From 2e6db6a80356f19a41b3c8d0064813c31b373d8f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:52:24 +0000
Subject: [PATCH 45/65] fix: integrate line_segment_ip profiles up to the
 requested position

The last, partial segment used the value at the next knot instead of the value
at x, the part between the axis and the first knot was dropped, and for x above
the last knot the arrays were read past their end.
---
 .../vmec/radial_profiles/radial_profiles.cc   | 34 +++++++------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index ff58b4a..d6300a8 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1083,37 +1083,29 @@ double RadialProfiles::evalLineSegmentIntegrated(
   }
 
   auto integrate_segment = [](double x0, double x1, double y0, double y1) {
-    const double m = (y1 - y0) / (x1 - x0);
-    const double b = y0 - m * x0;
-    return m * 0.5 * (x1 * x1 - x0 * x0) + b * (x1 - x0);
+    return 0.5 * (y0 + y1) * (x1 - x0);
   };
 
-  double xi = x;
-  double result = 0.0;
-
-  if (xi <= splineKnots[0]) {
-    result += integrate_segment(0.0, xi, splineValues[0],
-                                evalLineSegment(splineKnots, splineValues, xi));
-    return result;
+  if (x <= splineKnots[0]) {
+    // constant extrapolation below the first knot
+    return integrate_segment(0.0, x, splineValues[0], splineValues[0]);
   }
 
+  // from the axis to the first knot
+  double result = integrate_segment(0.0, splineKnots[0], splineValues[0],
+                                    splineValues[0]);
+
+  // segments that are completely below x
   int idx = 0;
-  while (idx < n - 1 && xi > splineKnots[idx + 1]) {
+  while (idx < n - 1 && x > splineKnots[idx + 1]) {
     result += integrate_segment(splineKnots[idx], splineKnots[idx + 1],
                                 splineValues[idx], splineValues[idx + 1]);
     ++idx;
   }
 
-  const double x0 = splineKnots[idx];
-  const double x1 = std::min(xi, splineKnots[idx + 1]);
-  const double y0 = splineValues[idx];
-  const double y1 = splineValues[idx + 1];
-  result += integrate_segment(x0, x1, y0, y1);
-
-  if (xi > splineKnots[n - 1]) {
-    result += integrate_segment(splineKnots[n - 1], xi, splineValues[n - 1],
-                                evalLineSegment(splineKnots, splineValues, xi));
-  }
+  // from the last knot below x up to x
+  result += integrate_segment(splineKnots[idx], x, splineValues[idx],
+                              evalLineSegment(splineKnots, splineValues, x));
 
   return result;
 }
-- 
2.43.0


From 44accdb45be3fd9061efae8c2847c3d2e93b4602 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:52:24 +0000
Subject: [PATCH 46/65] fix: normalize the arctangents in sum_atan profiles

The factor 2/pi was missing for x < 1, so that the profile jumped at the edge,
where the normalized form is used.
---
 .../vmec/radial_profiles/radial_profiles.cc   | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index d6300a8..b308098 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -675,46 +675,49 @@ double RadialProfiles::evalSumAtan(const Eigen::VectorXd& coeffs, double x) {
     ret = coeffs[0];
   }
 
+  // sum of arctangents, normalized such that each one goes from 0 to 1
+  double sum = 0.0;
   if (x >= 1.0) {
     if (coeffs.size() >= 2) {
-      ret += coeffs[1];
+      sum += coeffs[1];
     }
     if (coeffs.size() >= 6) {
-      ret += coeffs[5];
+      sum += coeffs[5];
     }
     if (coeffs.size() >= 10) {
-      ret += coeffs[9];
+      sum += coeffs[9];
     }
     if (coeffs.size() >= 14) {
-      ret += coeffs[13];
+      sum += coeffs[13];
     }
     if (coeffs.size() >= 18) {
-      ret += coeffs[17];
+      sum += coeffs[17];
     }
   } else {
     if (coeffs.size() >= 5) {
-      ret += coeffs[1] * std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
+      sum += coeffs[1] * std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
                                    std::pow(1 - x, coeffs[4]));
     }
     if (coeffs.size() >= 9) {
-      ret += coeffs[5] * std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
+      sum += coeffs[5] * std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
                                    std::pow(1 - x, coeffs[8]));
     }
     if (coeffs.size() >= 13) {
-      ret += coeffs[9] * std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
+      sum += coeffs[9] * std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
                                    std::pow(1 - x, coeffs[12]));
     }
     if (coeffs.size() >= 17) {
-      ret += coeffs[13] * std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
+      sum += coeffs[13] * std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
                                     std::pow(1 - x, coeffs[16]));
     }
     if (coeffs.size() >= 21) {
-      ret += coeffs[17] * std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
+      sum += coeffs[17] * std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
                                     std::pow(1 - x, coeffs[20]));
     }
+    sum *= M_2_PI;
   }
 
-  return ret;
+  return ret + sum;
 }
 
 double RadialProfiles::evalTwoLorentz(const Eigen::VectorXd& coeffs, double x) {
-- 
2.43.0


From a59bca1caac874d434730de6be40feced43714dc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 12:53:24 +0000
Subject: [PATCH 47/65] fix: accumulate the enclosed toroidal flux from its
 half-grid derivative

The output flux was a left Riemann sum of the full-grid derivative, so phi at
the edge differed from phiedge for every non-constant flux derivative (aphi).
---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 928e9e4..08a970e 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1913,7 +1913,7 @@ void vmecpp::RecomputeToroidalFlux(
   m_vmec_internal_results.phiF[0] = 0.0;
   for (int jF = 1; jF < fc.ns; ++jF) {
     m_vmec_internal_results.phiF[jF] = m_vmec_internal_results.phiF[jF - 1] +
-                                       m_vmec_internal_results.phipF[jF - 1];
+                                       m_vmec_internal_results.phipH[jF - 1];
   }  // jF
 
   // now apply scaling
-- 
2.43.0


From 2f1f469193804d72849562ab4537ecb04613f904 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 13:20:03 +0000
Subject: [PATCH 48/65] fix: initialize all force residuals

fsql and the preconditioned residuals were left uninitialized, so a solve that
ends before its first complete force evaluation reported a random fsql.
---
 src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
index 70a0130..0e1bf5b 100644
--- a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
+++ b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
@@ -56,6 +56,10 @@ FlowControl::FlowControl(bool lfreeb, double delt, int num_grids,
   // INITIALIZE PARAMETERS
   fsqr = 1.0;
   fsqz = 1.0;
+  fsql = 1.0;
+  fsqr1 = 1.0;
+  fsqz1 = 1.0;
+  fsql1 = 1.0;
   ftolv = fsqr;
   ijacob = 0;
   restart_reason = RestartReason::NO_RESTART;
-- 
2.43.0


From 19d5da29c4561841e107b8856aa7b6cfbf5a14af Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 13:26:09 +0000
Subject: [PATCH 49/65] fix: restart asymmetric solves from the full stored
 solution

Hot restart dropped all non-stellarator-symmetric coefficients of the stored
solution and, in fixed-boundary solves, of the new boundary, which then was
not the prescribed one.
---
 .../vmec/fourier_geometry/fourier_geometry.cc | 81 ++++++++++++++++++-
 .../vmec/fourier_geometry/fourier_geometry.h  |  7 +-
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc       |  8 +-
 3 files changed, 92 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
index 02c8ebf..49c7471 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
@@ -176,7 +176,17 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
                                     const RowMatrixXd& lmns_full,
                                     const RadialProfiles& p,
                                     const VmecConstants& constants,
-                                    const Boundaries* b) {
+                                    const Boundaries* b,
+                                    const RowMatrixXd* rmns,
+                                    const RowMatrixXd* zmnc,
+                                    const RowMatrixXd* lmnc_full) {
+  // column jF of the given matrix
+  auto column = [](const RowMatrixXd& matrix, int jF) {
+    const Eigen::VectorXd col = matrix.col(jF);
+    return std::vector<double>(col.data(), col.data() + col.size());
+  };
+
+
   // b == nullptr -> free-boundary -> we also initialize the last surface;
   // otherwise skip the last surface here and grab it from b later
   const int max_ns_to_set_rz_on_from_state = (b == nullptr) ? ns : ns - 1;
@@ -211,6 +221,31 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
         }
       }
     }
+
+    if (s_.lasym) {
+      std::vector<double> rmnsc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> rmncs_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.sin_to_sc_cs(column(*rmns, jF), rmnsc_at_jF, rmncs_at_jF, s_.ntor,
+                      s_.mpol);
+
+      std::vector<double> zmncc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> zmnss_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.cos_to_cc_ss(column(*zmnc, jF), zmncc_at_jF, zmnss_at_jF, s_.ntor,
+                      s_.mpol);
+
+      for (int m = 0; m < s_.mpol; ++m) {
+        for (int n = 0; n < s_.ntor + 1; ++n) {
+          const int idx_mn = m * (s_.ntor + 1) + n;
+          const int idx_jmn = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
+          rmnsc[idx_jmn] = rmnsc_at_jF[idx_mn];
+          zmncc[idx_jmn] = zmncc_at_jF[idx_mn];
+          if (s_.lthreed) {
+            rmncs[idx_jmn] = rmncs_at_jF[idx_mn];
+            zmnss[idx_jmn] = zmnss_at_jF[idx_mn];
+          }
+        }
+      }
+    }
   }
 
   // This loop always need to go over the full radial range
@@ -242,6 +277,26 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
         }
       }
     }
+
+    if (s_.lasym) {
+      std::vector<double> lmncc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> lmnss_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.cos_to_cc_ss(column(*lmnc_full, jF), lmncc_at_jF, lmnss_at_jF, s_.ntor,
+                      s_.mpol);
+
+      const double lambda_unscaling =
+          constants.lamscale / p.phipF[jF - r_.nsMinF1];
+      for (int m = 0; m < s_.mpol; ++m) {
+        for (int n = 0; n < s_.ntor + 1; ++n) {
+          const int idx_mn = m * (s_.ntor + 1) + n;
+          const int idx_jmn = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
+          lmncc[idx_jmn] = lmncc_at_jF[idx_mn] / lambda_unscaling;
+          if (s_.lthreed) {
+            lmnss[idx_jmn] = lmnss_at_jF[idx_mn] / lambda_unscaling;
+          }
+        }
+      }
+    }
   }
 
   // boundary from b, if present
@@ -264,6 +319,22 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
       std::copy(b->zbcs.begin(), b->zbcs.begin() + mnsize, zmncs_begin);
     }
 
+    if (s_.lasym) {
+      auto rmnsc_begin = rmnsc.begin() + (jF - nsMin_) * mnsize;
+      std::copy(b->rbsc.begin(), b->rbsc.begin() + mnsize, rmnsc_begin);
+
+      auto zmncc_begin = zmncc.begin() + (jF - nsMin_) * mnsize;
+      std::copy(b->zbcc.begin(), b->zbcc.begin() + mnsize, zmncc_begin);
+
+      if (s_.lthreed) {
+        auto rmncs_begin = rmncs.begin() + (jF - nsMin_) * mnsize;
+        std::copy(b->rbcs.begin(), b->rbcs.begin() + mnsize, rmncs_begin);
+
+        auto zmnss_begin = zmnss.begin() + (jF - nsMin_) * mnsize;
+        std::copy(b->zbss.begin(), b->zbss.begin() + mnsize, zmnss_begin);
+      }
+    }
+
     for (int m = 0; m < s_.mpol; ++m) {
       for (int n = 0; n < s_.ntor + 1; ++n) {
         int idx_fc = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
@@ -277,6 +348,14 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
           rmnss[idx_fc] *= basis_norm;
           zmncs[idx_fc] *= basis_norm;
         }
+        if (s_.lasym) {
+          rmnsc[idx_fc] *= basis_norm;
+          zmncc[idx_fc] *= basis_norm;
+          if (s_.lthreed) {
+            rmncs[idx_fc] *= basis_norm;
+            zmnss[idx_fc] *= basis_norm;
+          }
+        }
       }
     }
   }
diff --git a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
index fa65a02..c927b63 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
+++ b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
@@ -33,11 +33,16 @@ class FourierGeometry : public FourierCoeffs {
   // instead of from the Fourier coefficient matrices.
   // This latter use case applies to fixed-boundary hot-restart operation of
   // VMEC++.
+  // The non-stellarator-symmetric coefficients rmns, zmnc and lmnc_full are
+  // only used (and then have to be given) if lasym is true.
   void InitFromState(const FourierBasisFastPoloidal &fb,
                      const RowMatrixXd &rmnc, const RowMatrixXd &zmns,
                      const RowMatrixXd &lmns_full, const RadialProfiles &p,
                      const VmecConstants &constants,
-                     const Boundaries *b = nullptr);
+                     const Boundaries *b = nullptr,
+                     const RowMatrixXd *rmns = nullptr,
+                     const RowMatrixXd *zmnc = nullptr,
+                     const RowMatrixXd *lmnc_full = nullptr);
 
   void extrapolateTowardsAxis();
 
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index c5a6173..4ec7d23 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -748,13 +748,17 @@ bool Vmec::InitializeRadial(
           // free-boundary hot restart: use all flux surfaces from initial state
           decomposed_x_[thread_id]->InitFromState(
               t_, initial_state->wout.rmnc, initial_state->wout.zmns,
-              initial_state->wout.lmns_full, *p_[thread_id], constants_);
+              initial_state->wout.lmns_full, *p_[thread_id], constants_,
+              /*b=*/nullptr, &initial_state->wout.rmns,
+              &initial_state->wout.zmnc, &initial_state->wout.lmnc_full);
         } else {
           // fixed-boundary hot restart: use inner flux surfaces from initial
           // state, and LCFS geometry from Boundaries (from INDATA)
           decomposed_x_[thread_id]->InitFromState(
               t_, initial_state->wout.rmnc, initial_state->wout.zmns,
-              initial_state->wout.lmns_full, *p_[thread_id], constants_, &b_);
+              initial_state->wout.lmns_full, *p_[thread_id], constants_, &b_,
+              &initial_state->wout.rmns, &initial_state->wout.zmnc,
+              &initial_state->wout.lmnc_full);
         }
       }
     } else {
-- 
2.43.0


From 4ab6c5c6802ceb546b68afd9418adc6cf9cf3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 13:29:40 +0000
Subject: [PATCH 50/65] fix: check that a hot restart state has the shape the
 solve needs

The check only looked at the input the stored solution was computed for. A
solve that ended on a coarser grid than the last one of its schedule, or a
solution without its asymmetric half, was accepted and read out of bounds. The
step-wise model did not check the state at all.
---
 .../cpp/vmecpp/vmec/pybind11/pybind_vmec.cc   |  7 +++++
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc       | 31 ++++++++++++++-----
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h        |  6 ++++
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index b9fb2ed..32d8659 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -180,6 +180,13 @@ class VmecModel {
     if (!vmec_or.ok()) {
       throw std::runtime_error(std::string(vmec_or.status().message()));
     }
+    if (initial_state.has_value()) {
+      const absl::Status status =
+          vmecpp::CheckInitialState(*initial_state, indata, ns);
+      if (!status.ok()) {
+        throw std::invalid_argument(std::string(status.message()));
+      }
+    }
     auto model = std::make_unique<VmecModel>(std::move(vmec_or.value()));
     vmecpp::Vmec &v = *model->vmec_;
 
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 4ec7d23..cf1bd89 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -55,12 +55,10 @@ void UpdateStatusForThread(absl::Status& m_status_of_all_threads, int thread_id,
       std::string(m_status_of_all_threads.message()) + thread_msg;
   m_status_of_all_threads = absl::InternalError(new_msg);
 }
+}  // namespace
 
-// Check preconditions on (initial_state, indata) pair passed to Vmec::run
-// in order to make sure that the state to hot-restart from can be copied over
-// 1:1.
-absl::Status CheckInitialState(const vmecpp::HotRestartState& initial_state,
-                               const vmecpp::VmecINDATA& indata) {
+absl::Status vmecpp::CheckInitialState(const HotRestartState& initial_state,
+                                       const VmecINDATA& indata, int ns) {
   const auto msg_start = "Mismatch in variable '";
   const auto msg_end =
       "' between hot restart initial state and indata. This is not supported "
@@ -84,14 +82,30 @@ absl::Status CheckInitialState(const vmecpp::HotRestartState& initial_state,
 
   // check for matching `ns`
   if (initial_state.indata.ns_array[initial_state.indata.ns_array.size() - 1] !=
-      indata.ns_array[0]) {
+      ns) {
     return absl::InvalidArgumentError(
         absl::StrCat(msg_start, "ns_array", msg_end));
   }
 
+  // The solution itself needs to be available at that resolution; a solve that
+  // did not get through its multi-grid schedule ends on a coarser grid.
+  const int mnmax = indata.ntor + 1 + (indata.mpol - 1) * (2 * indata.ntor + 1);
+  const auto fits = [mnmax, ns](const RowMatrixXd& coefficients) {
+    return coefficients.rows() == mnmax && coefficients.cols() == ns;
+  };
+  const WOutFileContents& wout = initial_state.wout;
+  bool all_fit = fits(wout.rmnc) && fits(wout.zmns) && fits(wout.lmns_full);
+  if (indata.lasym) {
+    all_fit =
+        all_fit && fits(wout.rmns) && fits(wout.zmnc) && fits(wout.lmnc_full);
+  }
+  if (!all_fit) {
+    return absl::InvalidArgumentError(
+        absl::StrCat(msg_start, "wout", msg_end));
+  }
+
   return absl::OkStatus();
 }
-}  // namespace
 
 absl::StatusOr<vmecpp::OutputQuantities> vmecpp::run(
     const VmecINDATA& indata, std::optional<HotRestartState> initial_state,
@@ -287,7 +301,8 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
   }
 
   if (initial_state.has_value()) {
-    absl::Status status = CheckInitialState(*initial_state, indata_);
+    absl::Status status =
+        CheckInitialState(*initial_state, indata_, indata_.ns_array[0]);
     if (!status.ok()) {
       return status;
     }
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h
index 467b94d..029cc93 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h
@@ -59,6 +59,12 @@ struct HotRestartState {
         indata(std::move(output_quantities.indata)) {}
 };
 
+// Check preconditions on the (initial_state, indata) pair passed to Vmec::run
+// in order to make sure that the state to hot-restart from can be copied over
+// 1:1 onto a grid of `ns` flux surfaces.
+absl::Status CheckInitialState(const HotRestartState& initial_state,
+                               const VmecINDATA& indata, int ns);
+
 // Callback that returns true if execution should be interrupted (e.g., Ctrl+C).
 // Called periodically from the iteration loop.
 using InterruptCallback = std::function<bool()>;
-- 
2.43.0


From 5d96b985f3cf464b497c56c8175d00328af430e2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 13:59:14 +0000
Subject: [PATCH 51/65] fix: let solve_multigrid skip grids the step-wise model
 does not accept

Since the model checks its whole input, the coarser entries that
solve_multigrid is documented to skip kept it from being set up.
---
 src/vmecpp/_iteration.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/_iteration.py b/src/vmecpp/_iteration.py
index 588c83d..9a7c7b8 100644
--- a/src/vmecpp/_iteration.py
+++ b/src/vmecpp/_iteration.py
@@ -586,14 +586,22 @@ def solve_multigrid(
         )
         raise ValueError(msg)
 
-    model = None
-    results: list[IterationResult] = []
+    stages: list[int] = []
     ns_min = 3  # FlowControl::ns_min -- no refinement downward
-    for ns in ns_array:
+    for index, ns in enumerate(ns_array):
         if ns < ns_min:
             # mirror the C++ run: skip entries coarser than already solved
             continue
         ns_min = ns
+        stages.append(index)
+    if stages and len(stages) < len(ns_array):
+        # the model accepts only schedules without such entries
+        for name in ("ns_array", "ftol_array", "niter_array"):
+            setattr(cpp_indata, name, np.asarray(getattr(cpp_indata, name))[stages])
+
+    model = None
+    results: list[IterationResult] = []
+    for ns in (ns_array[index] for index in stages):
         if model is None:
             model = _vmecpp.VmecModel.create(cpp_indata, ns)
         else:
-- 
2.43.0


From 78700ff41578e196f67f48e65eabe2db2e837f6f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 14:58:27 +0000
Subject: [PATCH 52/65] fix: take bsubs from the full poloidal grid in
 asymmetric runs

The symmetry decomposition of the covariant field read B_s with the stride of the
reduced poloidal grid although it is stored on the full one, so jdotb and the
Mercier terms of three-dimensional runs with lasym were wrong.
---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 08a970e..4326249 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2087,11 +2087,11 @@ vmecpp::SymmetryDecomposedCovariantB vmecpp::DecomposeCovariantBBySymmetry(
     // bs_a(v,u) = .5*( bs(v,u) + bs(-v,-u) )     ! * COS(mu - nv)
     for (int jF = 0; jF < vmec_internal_results.num_full; ++jF) {
       for (int kl = 0; kl < vmec_internal_results.nZnT_reduced; ++kl) {
-        const int source_index = jF * s.nZnT + kl;
-
         const int k = kl / s.nThetaReduced;
         const int l = kl % s.nThetaReduced;
 
+        const int source_index = jF * s.nZnT + (k * s.nThetaEven + l);
+
         const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
         const int k_reversed = (s.nZeta - k) % s.nZeta;
         const int kl_reversed = k_reversed * s.nThetaEven + l_reversed;
-- 
2.43.0


From b575a50d066e640ee2eeaab1085fd291ab178cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 14:58:27 +0000
Subject: [PATCH 53/65] fix: compute wdot from the unmodified energy history

The quotient was assigned to the vector it was computed from, so every entry but
the second saw its already overwritten predecessor.
---
 .../vmecpp/vmec/output_quantities/output_quantities.cc   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 4326249..e5066d8 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -4483,13 +4483,14 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
   }
   wout.itfsq = wout.fsqt.size();
   // First entry is the staring energy W
-  wout.wdot = ToEigenVector(fc.mhd_energy);
+  const VectorXd mhd_energy = ToEigenVector(fc.mhd_energy);
+  wout.wdot = mhd_energy;
   if (wout.wdot.size() > 1) {
     // Compute decay rate wdot = -W/dt = (W[1:] - W[0:]) / W[1:]
     wout.wdot.tail(wout.wdot.size() - 1) =
-        (wout.wdot.tail(wout.wdot.size() - 1) -
-         wout.wdot.head(wout.wdot.size() - 1))
-            .cwiseQuotient(wout.wdot.tail(wout.wdot.size() - 1));
+        (mhd_energy.tail(mhd_energy.size() - 1) -
+         mhd_energy.head(mhd_energy.size() - 1))
+            .cwiseQuotient(mhd_energy.tail(mhd_energy.size() - 1));
   }
   // -------------------
   // one-dimensional array quantities
-- 
2.43.0


From be1ef11b44bc0d201bbd02134541e9b2a5d1df42 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 14:58:27 +0000
Subject: [PATCH 54/65] fix: extend the derivatives of the filtered field over
 the full grid

For lasym, bsubuv and bsubvu were accumulated in the layout of the reduced grid
and never extended to the other half, so jxbout.jsups3 was wrong.
---
 .../output_quantities/output_quantities.cc    | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index e5066d8..bcb0fe5 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2199,6 +2199,18 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
     bsubv_filtered_a.resize(m_vmec_internal_results.num_half * s.nZnT);
   }
 
+  // angular derivatives of the filtered bsubu, bsubv;
+  // odd (derivative of the symmetric part) and even (derivative of the
+  // non-stellarator-symmetric part) contributions
+  std::vector<double> bsubuv_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubvu_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubuv_a;
+  std::vector<double> bsubvu_a;
+  if (s.lasym) {
+    bsubuv_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+    bsubvu_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+  }
+
   // FOURIER LOW-PASS FILTER bsubs
   for (int jF = 0; jF < m_vmec_internal_results.num_full; ++jF) {
     for (int m = 0; m < s.mpol; ++m) {
@@ -2376,13 +2388,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
             const double tsinm1 = t.sinmum[idx_ml] * t.cosnv[idx_kn];
             const double tsinm2 = t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            covariant_b_derivatives.bsubvu(target_index) +=
-                tsinm1 * bsubvmn1 + tsinm2 * bsubvmn2;
+            bsubvu_s[target_index] += tsinm1 * bsubvmn1 + tsinm2 * bsubvmn2;
 
             const double tsinn1 = t.cosmu[idx_ml] * t.sinnvn[idx_kn];
             const double tsinn2 = t.sinmu[idx_ml] * t.cosnvn[idx_kn];
-            covariant_b_derivatives.bsubuv(target_index) +=
-                tsinn1 * bsubumn1 + tsinn2 * bsubumn2;
+            bsubuv_s[target_index] += tsinn1 * bsubumn1 + tsinn2 * bsubumn2;
 
             if (s.lasym) {
               const double tsin1 = t.sinmu[idx_ml] * t.cosnv[idx_kn];
@@ -2394,13 +2404,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
               const double tcosm1 = t.cosmum[idx_ml] * t.cosnv[idx_kn];
               const double tcosm2 = t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              covariant_b_derivatives.bsubvu(target_index) +=
-                  tcosm1 * bsubvmn3 + tcosm2 * bsubvmn4;
+              bsubvu_a[target_index] += tcosm1 * bsubvmn3 + tcosm2 * bsubvmn4;
 
               const double tcosn1 = t.sinmu[idx_ml] * t.sinnvn[idx_kn];
               const double tcosn2 = t.cosmu[idx_ml] * t.cosnvn[idx_kn];
-              covariant_b_derivatives.bsubuv(target_index) +=
-                  tcosn1 * bsubumn3 + tcosn2 * bsubumn4;
+              bsubuv_a[target_index] += tcosn1 * bsubumn3 + tcosn2 * bsubumn4;
             }  // lasym
           }  // l
         }  // k
@@ -2427,6 +2435,10 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
               bsubu_filtered_s[source_index] + bsubu_filtered_a[source_index];
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index] + bsubv_filtered_a[source_index];
+          covariant_b_derivatives.bsubuv(target_index) =
+              bsubuv_s[source_index] + bsubuv_a[source_index];
+          covariant_b_derivatives.bsubvu(target_index) =
+              bsubvu_s[source_index] + bsubvu_a[source_index];
         }  // l
         for (int l = s.nThetaReduced; l < s.nThetaEven; ++l) {
           const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
@@ -2440,6 +2452,12 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index_reversed] -
               bsubv_filtered_a[source_index_reversed];
+          covariant_b_derivatives.bsubuv(target_index) =
+              -bsubuv_s[source_index_reversed] +
+              bsubuv_a[source_index_reversed];
+          covariant_b_derivatives.bsubvu(target_index) =
+              -bsubvu_s[source_index_reversed] +
+              bsubvu_a[source_index_reversed];
         }  // l
       }  // k
     }  // jH
@@ -2450,6 +2468,8 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
         const int idx_kl = jH * s.nZnT + kl;
         m_vmec_internal_results.bsubu(idx_kl) = bsubu_filtered_s[idx_kl];
         m_vmec_internal_results.bsubv(idx_kl) = bsubv_filtered_s[idx_kl];
+        covariant_b_derivatives.bsubuv(idx_kl) = bsubuv_s[idx_kl];
+        covariant_b_derivatives.bsubvu(idx_kl) = bsubvu_s[idx_kl];
       }  // kl
     }  // jH
   }
-- 
2.43.0


From e0ec47c2f86d1fb0329c05c57c9ab33150462822 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 14:58:27 +0000
Subject: [PATCH 55/65] fix: compute the waist from the full poloidal grid in
 asymmetric runs

The inboard point was indexed with the stride of the reduced poloidal grid.
---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index bcb0fe5..d453fcf 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3948,7 +3948,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
                               vmec_internal_results.r_o(index_outboard);
 
     const int index_inboard =
-        ((fc.ns - 1) * s.nZeta + k) * s.nThetaReduced + (s.nThetaReduced - 1);
+        ((fc.ns - 1) * s.nZeta + k) * s.nThetaEff + (s.nThetaReduced - 1);
     const double r_inboard = vmec_internal_results.r_e(index_inboard) +
                              vmec_internal_results.r_o(index_inboard);
 
-- 
2.43.0


From e9fd0cde4071209cab9b85b4ab5696c0a4822098 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 14:58:27 +0000
Subject: [PATCH 56/65] fix: leave the model unchanged when a Hessian product
 fails

A direction of the wrong length was read out of bounds, and when the forward
model failed at the displaced state, the model stayed there.
---
 .../cpp/vmecpp/vmec/pybind11/pybind_vmec.cc   | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index 32d8659..06456e5 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -431,19 +431,31 @@ class VmecModel {
                                        double eps_rel = 1e-7) {
     const Eigen::VectorXd x =
         FlattenActive(*vmec_->decomposed_x_[0], vmec_->s_);
+    if (v.size() != x.size()) {
+      throw std::runtime_error(
+          "VmecModel.hessian_vector_product: direction has wrong length (got " +
+          std::to_string(v.size()) + ", expected " + std::to_string(x.size()) +
+          ")");
+    }
     const double vnorm = v.norm();
     if (vnorm == 0.0) {
       return Eigen::VectorXd::Zero(x.size());
     }
     const double eps = eps_rel * (1.0 + x.norm()) / vnorm;
-    UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x + eps * v);
-    Evaluate(2, 2, /*precondition=*/false);
-    const Eigen::VectorXd fp =
-        FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);
-    UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x - eps * v);
-    Evaluate(2, 2, /*precondition=*/false);
-    const Eigen::VectorXd fm =
-        FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);
+    // The state is restored also when the forward model cannot be evaluated at
+    // one of the displaced states.
+    const auto force_at = [&](const Eigen::VectorXd &displaced) {
+      UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, displaced);
+      try {
+        Evaluate(2, 2, /*precondition=*/false);
+      } catch (...) {
+        UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x);
+        throw;
+      }
+      return FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);
+    };
+    const Eigen::VectorXd fp = force_at(x + eps * v);
+    const Eigen::VectorXd fm = force_at(x - eps * v);
     UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x);
     return (fp - fm) / (2.0 * eps);
   }
-- 
2.43.0


From 08fc0ba66b7e95df0c74161975a617800aa9f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 14:58:27 +0000
Subject: [PATCH 57/65] fix: guess the magnetic axis on the full surface in
 asymmetric runs

For lasym, only the upper half of the boundary was evaluated, the rest being
left at zero, and the axis was searched in the first half of the toroidal
module only. A solve whose initial axis had to be replaced then failed with a
bad Jacobian, even for a symmetric boundary that is solved without lasym.
---
 .../vmec/boundaries/guess_magnetic_axis.cc    | 86 +++++++++++--------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
index 14d453c..5ed1de8 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
@@ -227,8 +227,16 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // inverse Fourier transforms:
   // evaluate R, Z, dR/dTheta and dZ/dTheta at radial locations ns12 and ns-1
+  // (the other half of the poloidal range follows from stellarator symmetry
+  // below, unless lasym)
+  const int num_theta = s.lasym ? s.nThetaEven : s.nThetaReduced;
   for (int k = 0; k < s.nZeta; ++k) {
-    for (int l = 0; l < s.nThetaReduced; ++l) {
+    for (int l = 0; l < num_theta; ++l) {
+      // basis functions are tabulated on [0, pi] only
+      const bool mirrored = l >= s.nThetaReduced;
+      const int l_table = mirrored ? s.nThetaEven - l : l;
+      const double sin_sign = mirrored ? -1.0 : 1.0;
+
       // set target storage to zero
       w.r_lcfs[k][l] = 0.0;
       w.z_lcfs[k][l] = 0.0;
@@ -242,83 +250,88 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
       for (int m = 0; m < s.mpol; ++m) {
         for (int n = 0; n <= s.ntor; ++n) {
-          int idx_ml = m * s.nThetaReduced + l;
+          int idx_ml = m * s.nThetaReduced + l_table;
           int idx_kn = k * (s.nnyq2 + 1) + n;
           int idx_mn = m * (s.ntor + 1) + n;
 
           const double basis_norm = 1.0 / (t.mscale[m] * t.nscale[n]);
 
+          const double cosmu = t.cosmu[idx_ml];
+          const double sinmu = sin_sign * t.sinmu[idx_ml];
+          const double cosmum = t.cosmum[idx_ml];
+          const double sinmum = sin_sign * t.sinmum[idx_ml];
+
           w.r_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rbcc[idx_mn] * cosmu * t.cosnv[idx_kn];
           w.z_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zbsc[idx_mn] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rbcc[idx_mn] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zbsc[idx_mn] * cosmum * t.cosnv[idx_kn];
           w.r_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * cosmu * t.cosnv[idx_kn];
           w.z_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * cosmum * t.cosnv[idx_kn];
           if (s.lthreed) {
             w.r_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.sinnv[idx_kn];
+                              sinmu * t.sinnv[idx_kn];
             w.z_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.sinnv[idx_kn];
+                              cosmu * t.sinnv[idx_kn];
             w.d_r_d_theta_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                                        cosmum * t.sinnv[idx_kn];
             w.d_z_d_theta_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                                        sinmum * t.sinnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rss_half[m][n] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * rss_half[m][n] * sinmu * t.sinnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcs_half[m][n] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * zcs_half[m][n] * cosmu * t.sinnv[idx_kn];
             w.d_r_d_theta_half[k][l] += basis_norm * rss_half[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                                        cosmum * t.sinnv[idx_kn];
             w.d_z_d_theta_half[k][l] += basis_norm * zcs_half[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                                        sinmum * t.sinnv[idx_kn];
           }
           if (s.lasym) {
             w.r_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.cosnv[idx_kn];
+                              sinmu * t.cosnv[idx_kn];
             w.z_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.cosnv[idx_kn];
+                              cosmu * t.cosnv[idx_kn];
             w.d_r_d_theta_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
+                                        cosmum * t.cosnv[idx_kn];
             w.d_z_d_theta_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+                                        sinmum * t.cosnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * rsc_half[m][n] * sinmu * t.cosnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * zcc_half[m][n] * cosmu * t.cosnv[idx_kn];
             w.d_r_d_theta_half[k][l] += basis_norm * rsc_half[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
+                                        cosmum * t.cosnv[idx_kn];
             w.d_z_d_theta_half[k][l] += basis_norm * zcc_half[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+                                        sinmum * t.cosnv[idx_kn];
             if (s.lthreed) {
               w.r_lcfs[k][l] +=
-                  basis_norm * rbcs[idx_mn] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * rbcs[idx_mn] * cosmu * t.sinnv[idx_kn];
               w.z_lcfs[k][l] +=
-                  basis_norm * zbss[idx_mn] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * zbss[idx_mn] * sinmu * t.sinnv[idx_kn];
               w.d_r_d_theta_lcfs[k][l] += basis_norm * rbcs[idx_mn] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                                          sinmum * t.sinnv[idx_kn];
               w.d_z_d_theta_lcfs[k][l] += basis_norm * zbss[idx_mn] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                                          cosmum * t.sinnv[idx_kn];
 
-              w.r_half[k][l] += basis_norm * rcs_half[m][n] * t.cosmu[idx_ml] *
+              w.r_half[k][l] += basis_norm * rcs_half[m][n] * cosmu *
                                 t.sinnv[idx_kn];
-              w.z_half[k][l] += basis_norm * zss_half[m][n] * t.sinmu[idx_ml] *
+              w.z_half[k][l] += basis_norm * zss_half[m][n] * sinmu *
                                 t.sinnv[idx_kn];
               w.d_r_d_theta_half[k][l] += basis_norm * rcs_half[m][n] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                                          sinmum * t.sinnv[idx_kn];
               w.d_z_d_theta_half[k][l] += basis_norm * zss_half[m][n] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                                          cosmum * t.sinnv[idx_kn];
             }
           }
         }  // n
@@ -379,7 +392,10 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // main loop in which, for each poloidal cutplane,
   // the new axis position is estimated
-  for (int k = 0; k < s.nZeta / 2 + 1; ++k) {
+  // (the other half of the module follows from stellarator symmetry below,
+  // unless lasym)
+  const int num_planes = s.lasym ? s.nZeta : s.nZeta / 2 + 1;
+  for (int k = 0; k < num_planes; ++k) {
     // compute grid extent
     const double min_r =
         *std::min_element(w.r_lcfs[k].begin(), w.r_lcfs[k].end());
-- 
2.43.0


From 664e9afb0cf8f6954735301c512d38c6de89ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 14:58:27 +0000
Subject: [PATCH 58/65] fix: guess the magnetic axis for an odd number of
 toroidal planes

One plane was left without an axis position, another was taken for a symmetry
plane, and the highest mode was halved as if it were at the Nyquist limit.
---
 .../cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
index 5ed1de8..caf33ee 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
@@ -430,7 +430,7 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
       double z_grid = min_z + index_z * delta_z;
 
       // early exit in some cases(?)
-      if (!s.lasym && (k == 0 || k == s.nZeta / 2)) {
+      if (!s.lasym && (k == 0 || 2 * k == s.nZeta)) {
         z_grid = 0.0;
         if (index_z > 0) {
           break;
@@ -470,7 +470,7 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
   // in order to always have a full toroidal module for the Fourier transform
   // below
   if (!s.lasym) {
-    for (int k = 1; k < s.nZeta / 2; ++k) {
+    for (int k = 1; k < (s.nZeta + 1) / 2; ++k) {
       const int k_reversed = (s.nZeta - k) % s.nZeta;
       w.new_r_axis[k_reversed] = w.new_r_axis[k];
       w.new_z_axis[k_reversed] = -w.new_z_axis[k];
@@ -502,12 +502,12 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
   // need to check explicitly for ntor > 0, because otherwise for ntor = 0,
   // nZeta / 2 also is zero (integer division doing the rounding-down),
   // which will lead to the n=0 - component being divided by 2 twice!
-  if (s.ntor > 0 && s.ntor >= s.nZeta / 2) {
+  if (s.ntor > 0 && s.nZeta % 2 == 0 && s.ntor >= s.nZeta / 2) {
     w.new_raxis_c[s.nZeta / 2] /= 2.0;
   }
   if (s.lasym) {
     w.new_zaxis_c[0] /= 2.0;
-    if (s.ntor > 0 && s.ntor >= s.nZeta / 2) {
+    if (s.ntor > 0 && s.nZeta % 2 == 0 && s.ntor >= s.nZeta / 2) {
       w.new_zaxis_c[s.nZeta / 2] /= 2.0;
     }
   }
-- 
2.43.0


From 3f4dc1fd877897672d624a06609f051315c94cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 15:46:27 +0000
Subject: [PATCH 59/65] fix: an output keeps the input that produced it

vmecpp.run handed the caller's own VmecInput out as output.input and, in a
continuation, kept reading it between steps: a later edit changed the recorded
input of an earlier output, an edit while the run was under way in another
thread changed the remaining steps.
---
 src/vmecpp/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 7b94577..79ca3f9 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -2425,7 +2425,10 @@ def run(
         >>> round(output.wout.b0, 10) # Exact value may differ by C library
         0.2033313711
     """
-    input = VmecInput.model_validate(input)
+    # Work on a copy: the caller may go on editing its own object, also while this
+    # run is under way in another thread, and the output has to keep the input that
+    # produced it.
+    input = VmecInput.model_validate(input).model_copy(deep=True)
 
     if not isinstance(input.mpol, int) or not isinstance(input.ntor, int):
         return _run_fourier_continuation(
-- 
2.43.0


From cba698a81a71dd9671542d900ea3bf8707ed68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 15:49:53 +0000
Subject: [PATCH 60/65] fix: free-boundary runs in several Python threads
 crashed while reading mgrid files

The NetCDF library is not thread-safe and run() releases the GIL.
---
 .../vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
index 2101d92..3dbc771 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
@@ -11,6 +11,7 @@
 #include <cstdio>
 #include <fstream>
 #include <iostream>
+#include <mutex>
 #include <vector>
 
 #include "absl/log/check.h"
@@ -99,6 +100,11 @@ absl::Status MGridProvider::LoadFile(const std::filesystem::path& filename,
     }
   }
 
+  // The NetCDF library is not thread-safe, but several runs may be under way at
+  // the same time (the Python bindings release the GIL during a run).
+  static std::mutex netcdf_mutex;
+  const std::lock_guard<std::mutex> netcdf_lock(netcdf_mutex);
+
   int ncid = 0;
   if (nc_open(filename.c_str(), NC_NOWRITE, &ncid) != NC_NOERR) {
     return absl::InternalError(
-- 
2.43.0


From 637ca52a7f2964798c239ac89f1b3d90eb0b5840 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 15:51:35 +0000
Subject: [PATCH 61/65] fix: the magnetic energy of overlapping surfaces
 depended on the number of threads

The absolute value was taken of each thread's part instead of the whole sum.
---
 .../vmec/ideal_mhd_model/ideal_mhd_model.cc    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc b/src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc
index bebacbd..8c56887 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc
@@ -1954,9 +1954,7 @@ void IdealMhdModel::pressureAndEnergies() {
         m_p_.presH[jH - r_.nsMinH];
   }  // jH
 
-  // magneticEnergy could be negative due to negative sign of Jacobian (gsqrt)
-  // --> could introduce signOfJacobian, but abs() does the job here as well
-  localMagneticEnergy = fabs(localMagneticEnergy) * m_fc_.deltaS;
+  localMagneticEnergy *= m_fc_.deltaS;
 
 #ifdef _OPENMP
 #pragma omp single
@@ -1983,9 +1981,17 @@ void IdealMhdModel::pressureAndEnergies() {
 #ifdef _OPENMP
 #pragma omp single
 #endif  // _OPENMP
-  // compute MHD energy from individual volume integrals
-  m_h_.mhdEnergy =
-      m_h_.magneticEnergy + m_h_.thermalEnergy / (adiabaticIndex - 1.0);
+  {
+    // magneticEnergy could be negative due to negative sign of Jacobian (gsqrt)
+    // --> could introduce signOfJacobian, but abs() does the job here as well.
+    // It has to be applied to the whole sum: applied to the parts, the result
+    // would depend on how overlapping surfaces are distributed over threads.
+    m_h_.magneticEnergy = fabs(m_h_.magneticEnergy);
+
+    // compute MHD energy from individual volume integrals
+    m_h_.mhdEnergy =
+        m_h_.magneticEnergy + m_h_.thermalEnergy / (adiabaticIndex - 1.0);
+  }
 #ifdef _OPENMP
 #pragma omp barrier
 #endif  // _OPENMP
-- 
2.43.0


From 320630cd86f1a54d3ad5817c6e20a872a2814b1e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 16:33:14 +0000
Subject: [PATCH 62/65] fix: the command line refuses an input whose result it
 cannot name before solving it

The name of the result file was derived from the name of the input only after
the solve, so the whole solve was lost if that failed.
---
 src/vmecpp/__main__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/__main__.py b/src/vmecpp/__main__.py
index 8041ad1..ebf021c 100644
--- a/src/vmecpp/__main__.py
+++ b/src/vmecpp/__main__.py
@@ -80,6 +80,10 @@ def main() -> None:
         print(f"Converted {args.input_file} to {json_file}")  # noqa: T201
         return
 
+    # an input whose result cannot be named is refused before it is solved
+    configuration_name = vmecpp._util.get_vmec_configuration_name(args.input_file)
+    wout_file = Path(f"wout_{configuration_name}.nc")
+
     if args.quiet:
         verbose = 0
     elif args.legacy:
@@ -93,9 +97,6 @@ def main() -> None:
 
     vmec_input = vmecpp.VmecInput.from_file(args.input_file)
     output = vmecpp.run(vmec_input, max_threads=args.max_threads, verbose=verbose)
-
-    configuration_name = vmecpp._util.get_vmec_configuration_name(args.input_file)
-    wout_file = Path(f"wout_{configuration_name}.nc")
     output.wout.save(wout_file)
 
     print(f"\nOutput written to {wout_file}")  # noqa: T201
-- 
2.43.0


From e090b78f46a10ef6180fba0c656b9569a14a6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 16:33:14 +0000
Subject: [PATCH 63/65] fix: vmecpp convert dropped every 'input.' in a file
 name

input.a_input.b was converted to a_b.json, over the result of input.a_b; only
the prefix is dropped now.
---
 src/vmecpp/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/__main__.py b/src/vmecpp/__main__.py
index ebf021c..afee33a 100644
--- a/src/vmecpp/__main__.py
+++ b/src/vmecpp/__main__.py
@@ -74,7 +74,7 @@ def main() -> None:
 
     if args.command == "convert":
         vmec_input = vmecpp.VmecInput.from_file(args.input_file)
-        json_name = args.input_file.name.replace("input.", "")
+        json_name = args.input_file.name.removeprefix("input.")
         json_file = Path(f"{args.input_file.parent}/{json_name}.json")
         vmec_input.save(json_file, indent=4)
         print(f"Converted {args.input_file} to {json_file}")  # noqa: T201
-- 
2.43.0


From 4bfb6bea3973de71dd2227ffcefcf92dccf9c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 16:37:42 +0000
Subject: [PATCH 64/65] fix: saving an input over an earlier one destroyed it
 when the write failed

The JSON text was written in place; it is now written next to the target and
moved there when complete, as results already are.
---
 src/vmecpp/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 79ca3f9..1e304cf 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -12,6 +12,7 @@ import sys
 import tempfile
 import types
 import typing
+import uuid
 from collections.abc import Generator
 from pathlib import Path
 
@@ -793,7 +794,15 @@ class VmecInput(BaseModelWithNumpy):
     def save(self, output_path: str | Path, **kwargs) -> None:
         json_serialized = self.to_json(**kwargs)
         output_path = Path(output_path)
-        output_path.write_text(json_serialized)
+        # Write next to the target and move the complete file into place, so
+        # that a failed save never destroys an earlier file at output_path.
+        tmp_path = output_path.with_name(f"{output_path.name}.{uuid.uuid4().hex}.tmp")
+        try:
+            tmp_path.write_text(json_serialized)
+            tmp_path.replace(output_path)
+        except BaseException:
+            tmp_path.unlink(missing_ok=True)
+            raise
 
 
 # Fixed dimension of the profile inputs (i.e. pressure, iota, current)
-- 
2.43.0


From 23e0f52c6e67edcd70bc70e26595f42ce85a81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 65/65] fix: asymmetric free-boundary runs projected the
 sin-source kernel over half the poloidal range

The response matrix of NESTOR has four blocks for lasym. The two blocks of
the cos-sources are folded over the full poloidal range; the two blocks of
the sin-sources used the reduced range only, which is right only when the
kernel has stellarator symmetry. The same equilibrium, with its poloidal
angle reversed or its toroidal origin moved by a quarter period, therefore
got a vacuum field that differed by percents.
---
 .../laplace_solver/laplace_solver.cc          | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc b/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
index 16aa7bd..c6963ec 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
@@ -429,6 +429,27 @@ void LaplaceSolver::PerformPoloidalFourierTransforms() {
         astemp_l[l] = astemp[base_idx + l];
       }
 
+      // Parts for the cos-observation (lasym only).
+      Eigen::VectorXd actemp_l_co, astemp_l_co;
+      if (s_.lasym) {
+        // The sin-source kernel has no parity on an asymmetric surface either:
+        // its projection must cover the full theta range as well (see the
+        // cos-source kernel below).
+        actemp_l_co.resize(s_.nThetaReduced);
+        astemp_l_co.resize(s_.nThetaReduced);
+        for (int l = 0; l < s_.nThetaReduced; ++l) {
+          const int rl = (s_.nThetaEven - l) % s_.nThetaEven;
+          const double ca = actemp[base_idx + l];
+          const double car = actemp[base_idx + rl];
+          const double cb = astemp[base_idx + l];
+          const double cbr = astemp[base_idx + rl];
+          actemp_l[l] = 0.5 * (ca - car);
+          astemp_l[l] = 0.5 * (cb + cbr);
+          actemp_l_co[l] = 0.5 * (ca + car);
+          astemp_l_co[l] = 0.5 * (cb - cbr);
+        }
+      }
+
       Eigen::VectorXd result_ss = sinmui_scaled.transpose() * actemp_l -
                                   cosmui_scaled.transpose() * astemp_l;
 
@@ -438,8 +459,8 @@ void LaplaceSolver::PerformPoloidalFourierTransforms() {
       }
 
       if (s_.lasym) {
-        Eigen::VectorXd result_sc = cosmui_scaled.transpose() * actemp_l +
-                                    sinmui_scaled.transpose() * astemp_l;
+        Eigen::VectorXd result_sc = cosmui_scaled.transpose() * actemp_l_co +
+                                    sinmui_scaled.transpose() * astemp_l_co;
         for (int m = 0; m < mf + 1; ++m) {
           const int idx_amat = (all_n * (mf + 1) + m) * mnpd + mn;
           amat_sin_cos[idx_amat] = result_sc[m];
-- 
2.43.0


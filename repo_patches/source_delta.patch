From 0ca397191fe06b9f37498ec167dbdae437cf0edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:54 +0000
Subject: [PATCH 01/65] fix: use beta-alpha CI amplitudes for the beta-alpha
 block in UCISD_WaveFunction.as_ccsd

---
 vayesta/core/types/wf/cisd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/cisd.py b/vayesta/core/types/wf/cisd.py
index cdd683a..e1cd551 100644
--- a/vayesta/core/types/wf/cisd.py
+++ b/vayesta/core/types/wf/cisd.py
@@ -161,7 +161,7 @@ class UCISD_WaveFunction(RCISD_WaveFunction):
         if len(self.c2) == 3:
             t2 = (t2aa, t2ab, t2bb)
         elif len(self.c2) == 4:
-            t2ba = self.c2ab / self.c0 - einsum("ia,jb->ijab", t1b, t1a)
+            t2ba = self.c2ba / self.c0 - einsum("ia,jb->ijab", t1b, t1a)
             t2 = (t2aa, t2ab, t2ba, t2bb)
         l1, l2 = t1, t2
         wf = wf_types.UCCSD_WaveFunction(self.mo, t1, t2, l1=l1, l2=l2, projector=self.projector)
-- 
2.43.0


From 23e238dc669564bd59ad361a1af3fca885572a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:54 +0000
Subject: [PATCH 02/65] fix: normalisation of the beta-alpha block in
 UCCSD_WaveFunction.as_cisd

---
 vayesta/core/types/wf/ccsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 1e19182..5c1f3a5 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -332,7 +332,7 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         if len(self.t2) == 3:
             c2 = (c2aa, c2ab, c2bb)
         elif len(self.t2) == 4:
-            c2ba = c0 * self.t2ba + einsum("ia,jb->ijab", c1b, c1a)
+            c2ba = c0 * (self.t2ba + einsum("ia,jb->ijab", self.t1b, self.t1a))
             c2 = (c2aa, c2ab, c2ba, c2bb)
         return wf_types.UCISD_WaveFunction(self.mo, c0, c1, c2, projector=self.projector)
 
-- 
2.43.0


From 164f60aec252927079d1b53f79f3074fecccd225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:54 +0000
Subject: [PATCH 03/65] fix: RCCSD_WaveFunction.as_unrestricted returned bound
 methods as T1 and T as Lambda

---
 vayesta/core/types/wf/ccsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 5c1f3a5..1d76e7b 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -160,7 +160,7 @@ class RCCSD_WaveFunction(wf_types.WaveFunction):
         mo = self.mo.to_spin_orbitals()
 
         def _to_uccsd(t1, t2):
-            t1, t2 = self.t1.copy, self.t2.copy()
+            t1, t2 = t1.copy(), t2.copy()
             t2aa = t2 - t2.transpose(0, 1, 3, 2)
             return (t1, t1), (t2aa, t2, t2aa)
 
-- 
2.43.0


From 96866a2cf61b68b0ee3dc52d59170ecbfdf125b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:02 +0000
Subject: [PATCH 04/65] fix: UCCSD_WaveFunction.rotate_ov rotated the alpha
 orbitals with the beta rotation

---
 vayesta/core/types/wf/ccsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 1d76e7b..e0713d7 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -387,7 +387,7 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
             assert isinstance(tv, np.ndarray) and len(tv) == 2
             trafo = lambda c: dot(c, block_diag(to, tv))
         else:
-            trafo = [lambda c: dot(c, x) for x in (block_diag(to[0], tv[0]), block_diag(to[1], tv[1]))]
+            trafo = [lambda c, x=x: dot(c, x) for x in (block_diag(to[0], tv[0]), block_diag(to[1], tv[1]))]
 
         wf.mo.basis_transform(trafo, inplace=True)
         wf.t1 = transform_uc1(wf.t1, to, tv)
-- 
2.43.0


From 66cabc80e1d579e0318d4f8699a1f7cb16f2cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:09 +0000
Subject: [PATCH 05/65] fix: EWF.get_dm_corr_energy ignored t_as_lambda and
 with_exxdiv in its one-body part

---
 vayesta/ewf/ewf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 94c4ff1..34f0133 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -363,7 +363,7 @@ class EWF(Embedding):
         return e_ccsd_t / self.ncells
 
     def get_dm_corr_energy(self, dm1="global-wf", dm2="projected-lambda", t_as_lambda=None, with_exxdiv=None):
-        e1 = self.get_dm_corr_energy_e1(dm1=dm1, t_as_lambda=None, with_exxdiv=None)
+        e1 = self.get_dm_corr_energy_e1(dm1=dm1, t_as_lambda=t_as_lambda, with_exxdiv=with_exxdiv)
         e2 = self.get_dm_corr_energy_e2(dm2=dm2, t_as_lambda=t_as_lambda)
         e_corr = e1 + e2
         self.log.debug("Ecorr(1)= %s  Ecorr(2)= %s  Ecorr= %s", *map(energy_string, (e1, e2, e_corr)))
-- 
2.43.0


From e6917a1a7d642b0a0b58ad6d333e3558bc5f3747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:09 +0000
Subject: [PATCH 06/65] fix: calc_e_ccsd_t_corr option and T2 argument of the
 fragment (T) energy raised an error

---
 vayesta/ewf/ccsd_t.py   | 4 ++--
 vayesta/ewf/fragment.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vayesta/ewf/ccsd_t.py b/vayesta/ewf/ccsd_t.py
index 046379a..c25f299 100644
--- a/vayesta/ewf/ccsd_t.py
+++ b/vayesta/ewf/ccsd_t.py
@@ -35,8 +35,8 @@ def calc_fragment_rccsd_t_energy(fragment, t1=None, t2=None, eris=None, project=
     nvir, nocc = t1T.shape
 
     if t2 is None:
-        t2T = fragment.results.wf.as_ccsd().t2.transpose(2,3,0,1)
-        
+        t2 = fragment.results.wf.as_ccsd().t2
+    t2T = t2.transpose(2,3,0,1)
 
     fvo = fragment.hamil.get_fock(with_exxdiv=True)[nocc:,:nocc]
 
diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 0c2462a..b6c83f1 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -305,7 +305,7 @@ class Fragment(BaseFragment):
         if self.opts.calc_e_dm_corr:
             results.e_corr_dm2cumulant = self.make_fragment_dm2cumulant_energy(hamil=self.hamil)
         if self.base.opts.calc_e_ccsd_t_corr:
-            results.e_corr_ccsd_t = calc_fragment_ccsd_t_energy(self, wf.t1, wf.t2)
+            results.e_corr_ccsd_t = calc_fragment_ccsd_t_energy(self)
 
         return results
 
-- 
2.43.0


From 159be09f8a705da0175e36dc946bac058139b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:09 +0000
Subject: [PATCH 07/65] fix: unrestricted fragment energy with unprojected
 singles used undefined slices

---
 vayesta/ewf/ufragment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vayesta/ewf/ufragment.py b/vayesta/ewf/ufragment.py
index a015d9d..49a2f9f 100644
--- a/vayesta/ewf/ufragment.py
+++ b/vayesta/ewf/ufragment.py
@@ -116,8 +116,12 @@ class Fragment(RFragment, BaseFragment):
             ca, cb = c1
 
             # Remove padding
-            ca = ca[oaf, va]
-            cb = cb[obf, vb]
+            if axis1 == "fragment":
+                ca = ca[oaf, va]
+                cb = cb[obf, vb]
+            else:
+                ca = ca[oa, va]
+                cb = cb[ob, vb]
 
             e_singles = 0
 
-- 
2.43.0


From f03c25e881f400fa792aaa55d58ca04dc585b5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:09 +0000
Subject: [PATCH 08/65] fix: beta-alpha integrals of the unrestricted
 intercluster MP2 energy missed the negative-definite part

---
 vayesta/ewf/icmp2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/ewf/icmp2.py b/vayesta/ewf/icmp2.py
index b4aa6e7..cd986b6 100644
--- a/vayesta/ewf/icmp2.py
+++ b/vayesta/ewf/icmp2.py
@@ -380,7 +380,7 @@ def get_intercluster_mp2_energy_uhf(emb, bno_threshold=1e-9, direct=True, exchan
                 if cx.cderi_neg is not None:
                     eris_aa -= einsum("Lia,Ljb->ijab", cx.cderi_neg[0], cy.cderi_neg[0])
                     eris_ab -= einsum("Lia,Ljb->ijab", cx.cderi_neg[0], cy.cderi_neg[1])
-                    eris_ab -= einsum("Lia,Ljb->ijab", cx.cderi_neg[1], cy.cderi_neg[0])
+                    eris_ba -= einsum("Lia,Ljb->ijab", cx.cderi_neg[1], cy.cderi_neg[0])
                     eris_bb -= einsum("Lia,Ljb->ijab", cx.cderi_neg[1], cy.cderi_neg[1])
                 # Alpha-alpha
                 eijab_aa = eia_xa[:, None, :, None] + eia_ya[None, :, None, :]
-- 
2.43.0


From faaf9608319680d4b6c2c6d6725710f24eb35026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:37 +0000
Subject: [PATCH 09/65] fix: symmetrize option of make_rdm2_demo_uhf left the
 alpha-beta block unsymmetrized

---
 vayesta/core/qemb/rdm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/core/qemb/rdm.py b/vayesta/core/qemb/rdm.py
index 7071f06..23dab04 100644
--- a/vayesta/core/qemb/rdm.py
+++ b/vayesta/core/qemb/rdm.py
@@ -343,6 +343,7 @@ def make_rdm2_demo_uhf(
     if symmetrize:
         dm2aa = (dm2aa + dm2aa.transpose(1, 0, 3, 2)) / 2
         dm2bb = (dm2bb + dm2bb.transpose(1, 0, 3, 2)) / 2
+        dm2ab = (dm2ab + dm2ab.transpose(1, 0, 3, 2)) / 2
     if ao_basis:
         dm2aa = einsum("ijkl,pi,qj,rk,sl->pqrs", dm2aa, *(4 * [emb.mo_coeff[0]]))
         dm2bb = einsum("ijkl,pi,qj,rk,sl->pqrs", dm2bb, *(4 * [emb.mo_coeff[1]]))
-- 
2.43.0


From 9ad96f0ac815531e59e81434c61ef2d5a7e83ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:34 +0000
Subject: [PATCH 10/65] fix: exchange part of the partitioned mean-field 2-DM
 was projected on the wrong index in make_rdm2_demo_rhf

---
 vayesta/core/qemb/rdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/rdm.py b/vayesta/core/qemb/rdm.py
index 23dab04..eede606 100644
--- a/vayesta/core/qemb/rdm.py
+++ b/vayesta/core/qemb/rdm.py
@@ -215,7 +215,7 @@ def make_rdm2_demo_rhf(
             p = x.get_overlap("mo|frag|mo")
             pdm1x = np.dot(p, dm1x)
             # Projected DM1(HF)
-            p = x.get_overlap("mo|mo[occ]|frag|mo")
+            p = x.get_overlap("mo|frag|mo[occ]|mo")
             dm2 += 2 * einsum("ij,kl->ijkl", p, dm1x)
             dm2 -= einsum("ij,kl->iklj", p, dm1x)
             # Replacing the above with this would lead to the new DMET energy:
-- 
2.43.0


From 8c0126ca0c0026f0ac5879a44b91d98c11e1b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:21 +0000
Subject: [PATCH 11/65] fix: UClusterHamiltonian.get_cderi_bare(compress=True)
 returned the alpha integrals for beta

---
 vayesta/solver/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 71b54c8..f6cc7a9 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -737,7 +737,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
                 self.log.debugv("CDERIs auxbas compressed from %d to %d in size", naux, sum(want))
                 return einsum("n,nq->nq", s[want], v[want]).reshape(-1, n1, n2)
 
-            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[0]))
+            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[1]))
             if cderi_neg[0] is not None:
                 cderi_neg = (compress_cderi(cderi_neg[0]), cderi_neg[1])
             if cderi_neg[1] is not None:
-- 
2.43.0


From f49ec309637c445e15a9d3bc304991005d9ac9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:21 +0000
Subject: [PATCH 12/65] fix: Fock matrix of a screened unrestricted cluster
 raised for different numbers of alpha and beta orbitals

---
 vayesta/solver/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index f6cc7a9..fe4477c 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -645,7 +645,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
                 + einsum("iipq->pq", gab[oa, oa])  # Coulomb
                 - einsum("ipqi->pq", gbb[ob, :, :, ob])
             )  # Exchange
-            fock = np.asarray(((fock[0] + dfa), (fock[1] + dfb)))
+            fock = ((fock[0] + dfa), (fock[1] + dfb))
 
         return fock
 
-- 
2.43.0


From f203b8d3dfbf089af440cbbac2f2733db4ac0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:00 +0000
Subject: [PATCH 13/65] fix: has_complete_virtual_fragmentation counted
 electrons instead of occupied orbitals for restricted mean-fields

---
 vayesta/core/qemb/qemb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 958ca89..3a73b02 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1573,10 +1573,12 @@ class Embedding:
             nspin = 1
             tspin = lambda x, s: x
             nelec = self.mol.nelectron
+            norm = 2
         elif self.spinsym == "unrestricted":
             nspin = 2
             tspin = lambda x, s: x[s]
             nelec = self.mol.nelec
+            norm = 1
         ovlp = self.get_ovlp()
         dm1 = self.mf.make_rdm1()
         for s in range(nspin):
@@ -1599,7 +1601,7 @@ class Embedding:
                 ne = einsum("ia,ab,ib->", cs, tspin(dm1, s), cs)
                 if complete_occupied and (abs(ne - nelec_s) > tol):
                     return False
-                if complete_virtual and (abs((nfrags - ne) - (nmo_s - nelec_s)) > tol):
+                if complete_virtual and (abs((nfrags - ne / norm) - (nmo_s - nelec_s / norm)) > tol):
                     return False
         return True
 
-- 
2.43.0


From f2f6d30e528f1e5a416c53e68c483034c802670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:22 +0000
Subject: [PATCH 14/65] fix: add_cas_fragment accepted active spaces with fewer
 orbitals than the electrons need

---
 vayesta/core/fragmentation/cas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/fragmentation/cas.py b/vayesta/core/fragmentation/cas.py
index adec11d..dd3890c 100644
--- a/vayesta/core/fragmentation/cas.py
+++ b/vayesta/core/fragmentation/cas.py
@@ -58,7 +58,7 @@ class CAS_Fragmentation(Fragmentation):
             offset += 1
             nelec_curr += int(occ[anyocc[-1] - offset])
 
-        if nelec_curr > nelec or offset > ncas:
+        if nelec_curr > nelec or offset >= ncas:
             raise ValueError("Cannot create CAS with required properties around Fermi level with current MO occupancy.")
 
         def check_for_degen(energies, po, pv, name=""):
-- 
2.43.0


From 8cb6736f673ab638f87bae5a8db1144473ce9eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:42 +0000
Subject: [PATCH 15/65] fix: orbital labels of IAOs referred to the wrong atom
 in systems with ghost atoms

---
 vayesta/core/fragmentation/iao.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/fragmentation/iao.py b/vayesta/core/fragmentation/iao.py
index a3e4656..3b30207 100644
--- a/vayesta/core/fragmentation/iao.py
+++ b/vayesta/core/fragmentation/iao.py
@@ -1,8 +1,10 @@
 import os.path
+import re
 import numpy as np
 
 import pyscf
 import pyscf.lo
+from pyscf.gto.mole import _compile_label
 
 from vayesta.core.util import dot, einsum, fix_orbital_sign
 from vayesta.core.fragmentation.fragmentation import Fragmentation
@@ -160,7 +162,18 @@ class IAO_Fragmentation(Fragmentation):
         return iao_labels
 
     def search_labels(self, labels):
-        return self.refmol.search_ao_label(labels)
+        if self.refmol.natm == self.mol.natm:
+            return self.refmol.search_ao_label(labels)
+        # If there are ghost atoms, search in the labels with the atom IDs of mol, not refmol:
+        if isinstance(labels, str):
+            labels = [labels]
+        patterns = [_compile_label(label) for label in labels]
+        found = []
+        for idx, (label, refmol_label) in enumerate(zip(self.get_labels(), self.refmol.ao_labels())):
+            label = re.sub(r"^\d+", str(label[0]), refmol_label)
+            if any(re.search(pattern, label) for pattern in patterns):
+                found.append(idx)
+        return np.asarray(found, dtype=int)
 
     def get_virtual_coeff(self, c_iao, mo_coeff=None):
         if mo_coeff is None:
-- 
2.43.0


From e1478b20767a250dcdee65924c96d8437b23fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 16/65] fix: unit option of the R2 bath was ignored

---
 vayesta/core/qemb/fragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 773ec81..710e68f 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -932,7 +932,7 @@ class Fragment:
             elif btype == "r2":
                 rcut = self._get_bath_option("rcut", occtype)
                 unit = self._get_bath_option("unit", occtype)
-                c_bath, c_frozen = factory.get_bath(rcut=rcut)
+                c_bath, c_frozen = factory.get_bath(rcut=rcut, unit=unit)
             elif btype == "ewdmet":
                 order = self._get_bath_option("order", occtype)
                 c_bath, c_frozen = factory.get_bath(order)
-- 
2.43.0


From 5dc13767473ebea3d76a8b5ae6ef04975cf5f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 17/65] fix: addbuffer option of the MP2 bath raised an error
 for unrestricted mean-fields

---
 vayesta/core/bath/bno.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vayesta/core/bath/bno.py b/vayesta/core/bath/bno.py
index 71dd601..1868f66 100644
--- a/vayesta/core/bath/bno.py
+++ b/vayesta/core/bath/bno.py
@@ -213,10 +213,17 @@ class BNO_Bath(Bath):
             else:
                 c_active_occ = spinalg.hstack_matrices(dmet_bath.c_cluster_occ, self.c_buffer)
                 ovlp = self.fragment.base.get_ovlp()
-                r = dot(self.c_buffer.T, ovlp, dmet_bath.c_env_occ)
-                dm_frozen = np.eye(dmet_bath.c_env_occ.shape[-1]) - np.dot(r.T, r)
-                e, r = np.linalg.eigh(dm_frozen)
-                c_frozen_occ = np.dot(dmet_bath.c_env_occ, r[:, e > 0.5])
+
+                def get_frozen(c_buffer, c_env_occ):
+                    r = dot(c_buffer.T, ovlp, c_env_occ)
+                    dm_frozen = np.eye(c_env_occ.shape[-1]) - np.dot(r.T, r)
+                    e, r = np.linalg.eigh(dm_frozen)
+                    return np.dot(c_env_occ, r[:, e > 0.5])
+
+                if self.spin_restricted:
+                    c_frozen_occ = get_frozen(self.c_buffer, dmet_bath.c_env_occ)
+                else:
+                    c_frozen_occ = tuple(get_frozen(self.c_buffer[s], dmet_bath.c_env_occ[s]) for s in range(2))
 
         actspace = Cluster.from_coeffs(c_active_occ, c_active_vir, c_frozen_occ, c_frozen_vir)
         return actspace
-- 
2.43.0


From c69fc037da4e6d7a9e6b9620e63149838cce6e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 18/65] fix: virtual-specific bath option addbuffer_vir was not
 accepted

---
 vayesta/core/qemb/qemb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 3a73b02..953958e 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -116,7 +116,7 @@ class Options(OptionsBase):
         project_dmet_mode_occ=None,
         project_dmet_mode_vir=None,
         addbuffer_occ=None,
-        addbuffer_dmet_vir=None,
+        addbuffer_vir=None,
         canonicalize_occ=None,
         canonicalize_vir=None,
     )
-- 
2.43.0


From b53dfa0aa40186ac5879d4456a5ebcae9f54f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:38 +0000
Subject: [PATCH 19/65] fix: projected MP2 energy of the BNO bath omitted cross
 terms between memory blocks

---
 vayesta/core/bath/bno.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/vayesta/core/bath/bno.py b/vayesta/core/bath/bno.py
index 1868f66..b5e8669 100644
--- a/vayesta/core/bath/bno.py
+++ b/vayesta/core/bath/bno.py
@@ -337,7 +337,8 @@ class MP2_BNO_Bath(BNO_Bath):
         if blksize is None:
             blksize = int(max_memory / max(nocc * nvir * nvir * 8, 1))
         nenv = nocc if self.occtype == "occupied" else nvir
-        ecorr = 0
+        # Fragment-projected amplitudes and integrals, summed over all blocks:
+        tp = gp = 0
         for blk in brange(0, nocc, blksize):
             if eris is not None:
                 gijab = eris[blk].transpose(0, 2, 1, 3)
@@ -349,10 +350,12 @@ class MP2_BNO_Bath(BNO_Bath):
             t2blk = gijab / eijab
             if not energy_only:
                 t2[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[blk], gijab)
-            ecorr += 2 * einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)
+            tp = tp + einsum("ix,i...->x...", rfrag[blk], t2blk)
+            gp = gp + einsum("ix,i...->x...", rfrag[blk], gijab)
+        # Projected correlation energy:
+        ecorr = 0
+        if nocc > 0:
+            ecorr = 2 * einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)
 
         return t2, ecorr
 
@@ -589,6 +592,8 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
         else:
             blksize_a = blksize
         ecorr = 0
+        # Fragment-projected amplitudes and integrals, summed over all blocks:
+        tp_aa = gp_aa = tp_ab = gp_ab = 0
         for blk in brange(0, nocca, blksize_a):
             # Alpha-alpha
             if eris is not None:
@@ -602,10 +607,8 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             t2blk -= t2blk.transpose(0, 1, 3, 2)
             if not energy_only:
                 t2aa[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[0][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[0][blk], gijab)
-            ecorr += (einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)) / 4
+            tp_aa = tp_aa + einsum("ix,i...->x...", rfrag[0][blk], t2blk)
+            gp_aa = gp_aa + einsum("ix,i...->x...", rfrag[0][blk], gijab)
             # Alpha-beta
             if eris is not None:
                 gijab = eris[1][blk].transpose(0, 2, 1, 3)
@@ -619,19 +622,22 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
                 t2ab[blk] = t2blk
             # Projected correlation energy:
             # Alpha projected:
-            tp = einsum("ix,i...->x...", rfrag[0][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[0][blk], gijab)
-            ecorr += einsum("ijab,ijab->", tp, gp) / 2
+            tp_ab = tp_ab + einsum("ix,i...->x...", rfrag[0][blk], t2blk)
+            gp_ab = gp_ab + einsum("ix,i...->x...", rfrag[0][blk], gijab)
             # Beta projected:
             tp = einsum("jx,ij...->ix...", rfrag[1], t2blk)
             gp = einsum("jx,ij...->ix...", rfrag[1], gijab)
             ecorr += einsum("ijab,ijab->", tp, gp) / 2
+        if nocca > 0:
+            ecorr += (einsum("ijab,ijab->", tp_aa, gp_aa) - einsum("ijab,ijba->", tp_aa, gp_aa)) / 4
+            ecorr += einsum("ijab,ijab->", tp_ab, gp_ab) / 2
 
         # Beta-beta:
         if blksize is None:
             blksize_b = int(max_memory / max(noccb * nvirb * nvirb * 8, 1))
         else:
             blksize_b = blksize
+        tp_bb = gp_bb = 0
         for blk in brange(0, noccb, blksize_b):
             if eris is not None:
                 gijab = eris[2][blk].transpose(0, 2, 1, 3)
@@ -644,10 +650,11 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             t2blk -= t2blk.transpose(0, 1, 3, 2)
             if not energy_only:
                 t2bb[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[1][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[1][blk], gijab)
-            ecorr += (einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)) / 4
+            tp_bb = tp_bb + einsum("ix,i...->x...", rfrag[1][blk], t2blk)
+            gp_bb = gp_bb + einsum("ix,i...->x...", rfrag[1][blk], gijab)
+        # Projected correlation energy:
+        if noccb > 0:
+            ecorr += (einsum("ijab,ijab->", tp_bb, gp_bb) - einsum("ijab,ijba->", tp_bb, gp_bb)) / 4
 
         return (t2aa, t2ab, t2bb), ecorr
 
-- 
2.43.0


From 596bd7a41baf2a67437f3c01833e398a3af6021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:40 +0000
Subject: [PATCH 20/65] fix: packing arrays for communication failed with
 recent NumPy versions (removed data type alias a8)

---
 vayesta/core/helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/helper.py b/vayesta/core/helper.py
index 9023c8f..8585e53 100644
--- a/vayesta/core/helper.py
+++ b/vayesta/core/helper.py
@@ -19,15 +19,15 @@ def orbital_sign_convention(mo_coeff, inplace=True):
 def get_dtype_int(obj):
     if obj is None:
         return 0
-    dtint = np.asarray(obj.dtype.char, dtype="a8").view(int)[()]
+    dtint = np.asarray(obj.dtype.char, dtype="S8").view(int)[()]
     return dtint
 
 
 def get_dtype(dtint):
     if dtint == 0:
         return None
-    val = np.asarray(dtint).view("a8")[()]
-    dtype = np.dtype(val)
+    val = np.asarray(dtint).view("S8")[()]
+    dtype = np.dtype(val.decode())
     return dtype
 
 
-- 
2.43.0


From 2c030707630f984b9f2fc780c16c95fcccb3fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:40 +0000
Subject: [PATCH 21/65] fix: packing arrays for communication corrupted data
 types other than 8-byte types

---
 vayesta/core/helper.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/vayesta/core/helper.py b/vayesta/core/helper.py
index 8585e53..d54bf3c 100644
--- a/vayesta/core/helper.py
+++ b/vayesta/core/helper.py
@@ -46,7 +46,7 @@ def pack_metadata(array, maxdim=8):
 
 
 def unpack_metadata(array, maxdim=8):
-    metadata = array[: maxdim + 2].view(int)
+    metadata = array.view(int)[: maxdim + 2]
     dtype = get_dtype(metadata[0])
     ndim, shape = metadata[1], metadata[2:]
     return dtype, ndim, shape
@@ -58,11 +58,13 @@ def pack_arrays(*arrays, dtype=float, maxdim=8):
     Useful for MPI communication."""
 
     def pack(array):
-        metadata = pack_metadata(array).view(dtype)
+        metadata = pack_metadata(array, maxdim=maxdim).view(dtype)
         if array is None:
             return metadata
-        array = array.flatten().view(dtype)
-        return np.hstack((metadata, array))
+        # Pad data to a multiple of the item size of `dtype`
+        data = array.flatten().view(np.uint8)
+        data = np.hstack((data, np.zeros(-data.size % np.dtype(dtype).itemsize, dtype=np.uint8)))
+        return np.hstack((metadata, data.view(dtype)))
 
     packed = []
     for array in arrays:
@@ -79,15 +81,15 @@ def unpack_arrays(packed, dtype=float, maxdim=8):
     while True:
         if packed.size == 0:
             break
-        metadata, packed = np.hsplit(packed, [maxdim + 2])
-        dtype, ndim, shape = unpack_metadata(metadata)
-        if dtype is None:
+        metadata, packed = np.hsplit(packed, [(maxdim + 2) * np.dtype(int).itemsize // packed.itemsize])
+        array_dtype, ndim, shape = unpack_metadata(metadata, maxdim=maxdim)
+        if array_dtype is None:
             unpacked.append(None)
             continue
         shape = shape[:ndim]
-        size = np.prod(shape)
-        array, packed = np.hsplit(packed, [size])
-        unpacked.append(array.view(dtype).reshape(shape))
+        nbytes = int(np.prod(shape)) * array_dtype.itemsize
+        array, packed = np.hsplit(packed, [-(-nbytes // packed.itemsize)])
+        unpacked.append(array.view(np.uint8)[:nbytes].view(array_dtype).reshape(shape))
     return unpacked
 
 
-- 
2.43.0


From 4eddd0e70c2ab3a44b6818e72f9ce3f4d60e3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:40 +0000
Subject: [PATCH 22/65] fix: unrestricted CCSD wave functions without projector
 or Lambda amplitudes were not recovered from packed data

---
 vayesta/core/types/wf/ccsd.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index e0713d7..4f2b641 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -404,7 +404,7 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         mo = self.mo.pack(dtype=dtype)
         l1 = self.l1 if self.l1 is not None else [None, None]
         l2 = self.l2 if self.l2 is not None else len(self.t2) * [None]
-        projector = self.projector
+        projector = self.projector if self.projector is not None else [None, None]
         data = (mo, *self.t1, *self.t2, *l1, *l2, *projector)
         pack = pack_arrays(*data, dtype=dtype)
         return pack
@@ -413,14 +413,15 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
     def unpack(cls, packed):
         """Unpack from a single array of data type `dtype`.
         Useful for communication via MPI."""
-        mo, t1a, t1b, t2aa, t2ab, t2ba, t2bb, l1a, l1b, l2aa, l2ab, l2ba, l2bb, proja, projb = unpack_arrays(packed)
-        t1 = (t1a, t1b)
-        t2 = (t2aa, t2ab, t2ba, t2bb)
-        l1 = (l1a, l1b)
-        l2 = (l2aa, l2ab, l2ba, l2bb)
-        projector = (proja, projb)
+        mo, *data = unpack_arrays(packed)
+        # Doubles amplitudes are stored as either (aa, ab, bb) or (aa, ab, ba, bb)
+        ndoubles = (len(data) - 6) // 2
+        t1, t2, l1, l2, projector = [
+            tuple(data[start:stop])
+            for (start, stop) in zip(
+                np.cumsum([0, 2, ndoubles, 2, ndoubles]), np.cumsum([2, ndoubles, 2, ndoubles, 2])
+            )
+        ]
+        l1, l2, projector = [(x if x[0] is not None else None) for x in (l1, l2, projector)]
         mo = SpinOrbitals.unpack(mo)
-        wf = cls(mo, t1, t2, l1=l1, l2=l2)
-        if projector is not None:
-            wf.projector = projector
-        return wf
+        return cls(mo, t1, t2, l1=l1, l2=l2, projector=projector)
-- 
2.43.0


From f303f72fcc07504003e93ba3e989ce14bfe244cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 23/65] fix: unrestricted MP2 wave functions could not be
 packed for communication

---
 vayesta/core/types/wf/mp2.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/mp2.py b/vayesta/core/types/wf/mp2.py
index 7da5511..90303e4 100644
--- a/vayesta/core/types/wf/mp2.py
+++ b/vayesta/core/types/wf/mp2.py
@@ -2,7 +2,7 @@ import numpy as np
 from vayesta.core import spinalg
 from vayesta.core.util import callif, dot, einsum
 from vayesta.core.types import wf as wf_types
-from vayesta.core.types.orbitals import SpatialOrbitals
+from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
 from vayesta.core.types.wf.project import project_c2, project_uc2, symmetrize_c2, symmetrize_uc2
 from vayesta.core.helper import pack_arrays, unpack_arrays
 
@@ -194,3 +194,22 @@ class UMP2_WaveFunction(RMP2_WaveFunction):
 
     def multiply(self, factor):
         self.t2 = spinalg.multiply(self.t2, len(self.t2) * [factor])
+
+    def pack(self, dtype=float):
+        """Pack into a single array of data type `dtype`.
+
+        Useful for communication via MPI."""
+        mo = self.mo.pack(dtype=dtype)
+        projector = self.projector if self.projector is not None else [None, None]
+        data = (mo, *self.t2, *projector)
+        return pack_arrays(*data, dtype=dtype)
+
+    @classmethod
+    def unpack(cls, packed):
+        """Unpack from a single array of data type `dtype`.
+
+        Useful for communication via MPI."""
+        mo, *t2, proja, projb = unpack_arrays(packed)
+        projector = (proja, projb) if proja is not None else None
+        mo = SpinOrbitals.unpack(mo)
+        return cls(mo, tuple(t2), projector=projector)
-- 
2.43.0


From 43436d0a2f6c3ed764c2b9358561153795cac9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 24/65] fix: RDM wave functions could not be packed for
 communication

---
 vayesta/core/types/wf/rdm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/rdm.py b/vayesta/core/types/wf/rdm.py
index 52d05be..eb848e7 100644
--- a/vayesta/core/types/wf/rdm.py
+++ b/vayesta/core/types/wf/rdm.py
@@ -2,7 +2,9 @@ import numpy as np
 
 from vayesta.core import spinalg
 from vayesta.core.util import dot, einsum, callif
+from vayesta.core.helper import pack_arrays, unpack_arrays
 from vayesta.core.types import wf as wf_types
+from vayesta.core.types.orbitals import SpatialOrbitals
 from vayesta.core.types.wf.project import (
     project_c1,
     project_c2,
@@ -88,7 +90,7 @@ class RRDM_WaveFunction(wf_types.WaveFunction):
 
         Useful for communication via MPI."""
         mo = self.mo.pack(dtype=dtype)
-        data = (mo, dm1, dm2, self.projector)
+        data = (mo, self.dm1, self.dm2, self.projector)
         pack = pack_arrays(*data, dtype=dtype)
         return pack
 
-- 
2.43.0


From 08aee5bf7cf1c36982f73d291d09923ef1c2e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:47 +0000
Subject: [PATCH 25/65] fix: dm2ba of unrestricted RDM wave functions returned
 the beta-beta block

---
 vayesta/core/types/wf/rdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/rdm.py b/vayesta/core/types/wf/rdm.py
index eb848e7..db01454 100644
--- a/vayesta/core/types/wf/rdm.py
+++ b/vayesta/core/types/wf/rdm.py
@@ -136,7 +136,7 @@ class URDM_WaveFunction(RRDM_WaveFunction):
     def dm2ba(self):
         if len(self.dm2) == 4:
             return self.dm2[2]
-        return self.dm2[2].transpose(1, 0, 3, 2)
+        return self.dm2ab.transpose(2, 3, 0, 1)
     
     @property
     def dm2bb(self):
-- 
2.43.0


From 73c965293582e9ce4bc8df3355f1edbc854e1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:41 +0000
Subject: [PATCH 26/65] fix: 1-RDM from global MP2 wave function raised an
 error with MPI

---
 vayesta/ewf/rdm.py  | 5 ++++-
 vayesta/ewf/urdm.py | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index 83f63a1..7d42d6e 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -434,7 +434,10 @@ def make_rdm1_ccsd_global_wf(
 
     if mpi:
         rma.clear()
-        doo, dov, dvv = mpi.nreduce(doo, dov, dvv, target=mpi_target, logfunc=emb.log.timingv)
+        if with_t1:
+            doo, dov, dvv = mpi.nreduce(doo, dov, dvv, target=mpi_target, logfunc=emb.log.timingv)
+        else:
+            doo, dvv = mpi.nreduce(doo, dvv, target=mpi_target, logfunc=emb.log.timingv)
         # Make sure no more MPI calls are made after returning some ranks early!
         if mpi_target not in (None, mpi.rank):
             return None
diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index 3577f8b..0983cfe 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -668,9 +668,12 @@ def make_rdm1_ccsd_global_wf(
 
     if mpi:
         rma.clear()
-        dooa, doob, dvoa, dvob, dvva, dvvb = mpi.nreduce(
-            dooa, doob, dvoa, dvob, dvva, dvvb, target=mpi_target, logfunc=emb.log.timingv
-        )
+        if with_t1:
+            dooa, doob, dvoa, dvob, dvva, dvvb = mpi.nreduce(
+                dooa, doob, dvoa, dvob, dvva, dvvb, target=mpi_target, logfunc=emb.log.timingv
+            )
+        else:
+            dooa, doob, dvva, dvvb = mpi.nreduce(dooa, doob, dvva, dvvb, target=mpi_target, logfunc=emb.log.timingv)
         # Make sure no more MPI calls are made after returning some ranks early!
         if mpi_target not in (None, mpi.rank):
             return None
-- 
2.43.0


From 24b8265d0b81a05873e8fe72356477274fb79538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:41 +0000
Subject: [PATCH 27/65] fix: 1-RDM from global wave function raised an error on
 MPI ranks without fragments

---
 vayesta/ewf/rdm.py  | 4 ++--
 vayesta/ewf/urdm.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index 7d42d6e..b7f1b67 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -459,8 +459,8 @@ def make_rdm1_ccsd_global_wf(
         dm1[vir, occ] = dov.T
 
     # --- Some information:
-    emb.log.debug("Cluster-pairs: total= %d  kept= %d (%.1f%%)", total_xy, kept_xy, 100 * kept_xy / total_xy)
-    emb.log.debug("Singular values: total= %d  kept= %d (%.1f%%)", total_sv, kept_sv, 100 * kept_sv / total_sv)
+    emb.log.debug("Cluster-pairs: total= %d  kept= %d (%.1f%%)", total_xy, kept_xy, 100 * kept_xy / max(total_xy, 1))
+    emb.log.debug("Singular values: total= %d  kept= %d (%.1f%%)", total_sv, kept_sv, 100 * kept_sv / max(total_sv, 1))
 
     return dm1
 
diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index 0983cfe..c512218 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -719,8 +719,8 @@ def make_rdm1_ccsd_global_wf(
     dm1b = (dm1b + dm1b.T) / 4
 
     # --- Some information:
-    emb.log.debug("Cluster-pairs: total= %d  kept= %d (%.1f%%)", total_xy, kept_xy, 100 * kept_xy / total_xy)
-    emb.log.debug("Singular values total= %d  kept= %d (%.1f%%)", total_sv, kept_sv, 100 * kept_sv / total_sv)
+    emb.log.debug("Cluster-pairs: total= %d  kept= %d (%.1f%%)", total_xy, kept_xy, 100 * kept_xy / max(total_xy, 1))
+    emb.log.debug("Singular values total= %d  kept= %d (%.1f%%)", total_sv, kept_sv, 100 * kept_sv / max(total_sv, 1))
 
     return dm1a, dm1b
 
-- 
2.43.0


From f14633f361a8fc4356d7268bbd2d480e5088ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:41 +0000
Subject: [PATCH 28/65] fix: density matrices with mpi_target raised errors or
 deadlocked

---
 vayesta/core/qemb/rdm.py | 30 ++++++++++++++++++++++++------
 vayesta/ewf/ewf.py       |  3 +++
 vayesta/ewf/rdm.py       | 12 ++++++------
 vayesta/ewf/uewf.py      |  6 +++++-
 vayesta/ewf/urdm.py      | 12 ++++++------
 5 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/vayesta/core/qemb/rdm.py b/vayesta/core/qemb/rdm.py
index eede606..61c20ae 100644
--- a/vayesta/core/qemb/rdm.py
+++ b/vayesta/core/qemb/rdm.py
@@ -41,6 +41,9 @@ def make_rdm1_demo_rhf(emb, ao_basis=False, with_mf=True, symmetrize=True, mpi_t
         dm1 += einsum("xi,ij,px,qj->pq", px, dm1x, rx, rx)
     if mpi:
         dm1 = mpi.nreduce(dm1, target=mpi_target, logfunc=emb.log.timingv)
+        # Make sure no more MPI calls are made after returning some ranks early!
+        if mpi_target not in (None, mpi.rank):
+            return None
     if with_mf is True:
         dm1[np.diag_indices(emb.nocc)] += 2
     if symmetrize:
@@ -85,6 +88,9 @@ def make_rdm1_demo_uhf(emb, ao_basis=False, with_mf=True, symmetrize=True, mpi_t
     if mpi:
         dm1a = mpi.nreduce(dm1a, target=mpi_target, logfunc=emb.log.timingv)
         dm1b = mpi.nreduce(dm1b, target=mpi_target, logfunc=emb.log.timingv)
+        # Make sure no more MPI calls are made after returning some ranks early!
+        if mpi_target not in (None, mpi.rank):
+            return None
     if with_mf is True:
         dm1a[np.diag_indices(emb.nocc[0])] += 1
         dm1b[np.diag_indices(emb.nocc[1])] += 1
@@ -232,9 +238,15 @@ def make_rdm2_demo_rhf(
     if mpi:
         dm2 = mpi.nreduce(dm2, target=mpi_target, logfunc=emb.log.timingv)
     # Add non-cumulant contribution (unless added above, for part_cumulant=False)
-    if with_dm1 and part_cumulant:
+    add_dm1 = with_dm1 and part_cumulant
+    if add_dm1:
+        demo_dm1 = make_rdm1_demo_rhf(emb, with_mf=(not approx_cumulant), mpi_target=mpi_target)
+    # Make sure no more MPI calls are made after returning some ranks early!
+    if mpi and mpi_target not in (None, mpi.rank):
+        return None
+    if add_dm1:
         if approx_cumulant:
-            ddm1 = make_rdm1_demo_rhf(emb, with_mf=False)
+            ddm1 = demo_dm1
             ddm1[np.diag_indices(emb.nocc)] += 1
             for i in range(emb.nocc):
                 dm2[i, i, :, :] += 2 * ddm1
@@ -242,7 +254,7 @@ def make_rdm2_demo_rhf(
                 dm2[:, i, i, :] -= ddm1
                 dm2[i, :, :, i] -= ddm1
         else:
-            dm1 = make_rdm1_demo_rhf(emb)
+            dm1 = demo_dm1
             dm2 += einsum("ij,kl->ijkl", dm1, dm1) - einsum("ij,kl->iklj", dm1, dm1) / 2
 
     if symmetrize:
@@ -317,9 +329,15 @@ def make_rdm2_demo_uhf(
         dm2aa = mpi.nreduce(dm2aa, target=mpi_target, logfunc=emb.log.timingv)
         dm2bb = mpi.nreduce(dm2bb, target=mpi_target, logfunc=emb.log.timingv)
         dm2ab = mpi.nreduce(dm2ab, target=mpi_target, logfunc=emb.log.timingv)
-    if with_dm1 and part_cumulant:
+    add_dm1 = with_dm1 and part_cumulant
+    if add_dm1:
+        demo_dm1 = make_rdm1_demo_uhf(emb, with_mf=(not approx_cumulant), mpi_target=mpi_target)
+    # Make sure no more MPI calls are made after returning some ranks early!
+    if mpi and mpi_target not in (None, mpi.rank):
+        return None
+    if add_dm1:
         if approx_cumulant:
-            ddm1a, ddm1b = make_rdm1_demo_uhf(emb, with_mf=False)
+            ddm1a, ddm1b = demo_dm1
             ddm1a[np.diag_indices(emb.nocc[0])] += 0.5
             ddm1b[np.diag_indices(emb.nocc[1])] += 0.5
             for i in range(emb.nocc[0]):
@@ -335,7 +353,7 @@ def make_rdm2_demo_uhf(
                 dm2bb[i, :, :, i] -= ddm1b
                 dm2ab[:, :, i, i] += ddm1a
         else:
-            dm1a, dm1b = make_rdm1_demo_uhf(emb)
+            dm1a, dm1b = demo_dm1
             dm2aa += einsum("ij,kl->ijkl", dm1a, dm1a) - einsum("ij,kl->iklj", dm1a, dm1a)
             dm2bb += einsum("ij,kl->ijkl", dm1b, dm1b) - einsum("ij,kl->iklj", dm1b, dm1b)
             dm2ab += einsum("ij,kl->ijkl", dm1a, dm1b)
diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 34f0133..2f87128 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -278,6 +278,9 @@ class EWF(Embedding):
     @log_method()
     def _make_rdm1_ccsd_global_wf(self, *args, ao_basis=False, with_mf=True, **kwargs):
         dm1 = self._make_rdm1_ccsd_global_wf_cached(*args, **kwargs)
+        # Non-target MPI rank
+        if dm1 is None:
+            return None
         if with_mf:
             dm1[np.diag_indices(self.nocc)] += 2
         if ao_basis:
diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index b7f1b67..f88f2d1 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -550,13 +550,13 @@ def make_rdm2_ccsd_proj_lambda(
         dm2 += einsum("ijkl,Ii,Jj,Kk,Ll->IJKL", dm2x, rx, rx, rx, rx)
     if mpi:
         dm2 = mpi.nreduce(dm2, target=mpi_target, logfunc=emb.log.timingv)
-        if mpi_target not in (None, mpi.rank):
-            return None
+    if with_dm1 is True:
+        with_dm1 = emb.make_rdm1()
+    # Make sure no more MPI calls are made after returning some ranks early!
+    if mpi and mpi_target not in (None, mpi.rank):
+        return None
     if isinstance(with_dm1, np.ndarray) or with_dm1:
-        if with_dm1 is True:
-            dm1 = emb.make_rdm1()
-        else:
-            dm1 = with_dm1
+        dm1 = with_dm1
         if not approx_cumulant:
             dm2 += einsum("ij,kl->ijkl", dm1, dm1) - einsum("ij,kl->iklj", dm1, dm1) / 2
         # Remove half of the mean-field contribution
diff --git a/vayesta/ewf/uewf.py b/vayesta/ewf/uewf.py
index 17c87c9..2414f85 100644
--- a/vayesta/ewf/uewf.py
+++ b/vayesta/ewf/uewf.py
@@ -79,7 +79,11 @@ class UEWF(REWF, UEmbedding):
 
     @log_method()
     def _make_rdm1_ccsd_global_wf(self, *args, ao_basis=False, with_mf=True, **kwargs):
-        dm1a, dm1b = self._make_rdm1_ccsd_global_wf_cached(*args, **kwargs)
+        dm1 = self._make_rdm1_ccsd_global_wf_cached(*args, **kwargs)
+        # Non-target MPI rank
+        if dm1 is None:
+            return None
+        dm1a, dm1b = dm1
         if with_mf:
             dm1a[np.diag_indices(self.nocc[0])] += 1
             dm1b[np.diag_indices(self.nocc[1])] += 1
diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index c512218..baa2f6e 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -803,13 +803,13 @@ def make_rdm2_ccsd_proj_lambda(emb, ao_basis=False, t_as_lambda=None, with_dm1=T
         dm2bb += einsum("ijkl,Ii,Jj,Kk,Ll->IJKL", dm2xbb, rb, rb, rb, rb)
     if mpi:
         dm2aa, dm2ab, dm2bb = mpi.nreduce(dm2aa, dm2ab, dm2bb, target=mpi_target, logfunc=emb.log.timingv)
-        if mpi_target not in (None, mpi.rank):
-            return None
+    if with_dm1 is True:
+        with_dm1 = emb.make_rdm1()
+    # Make sure no more MPI calls are made after returning some ranks early!
+    if mpi and mpi_target not in (None, mpi.rank):
+        return None
     if with_dm1:
-        if with_dm1 is True:
-            dm1a, dm1b = emb.make_rdm1()
-        else:
-            dm1a, dm1b = (with_dm1[0].copy(), with_dm1[1].copy())
+        dm1a, dm1b = (with_dm1[0].copy(), with_dm1[1].copy())
         nocca, noccb = emb.nocc
         dm1a[np.diag_indices(nocca)] -= 0.5
         dm1b[np.diag_indices(noccb)] -= 0.5
-- 
2.43.0


From 8a5408e162adb130047f4516ab26034487516dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:37 +0000
Subject: [PATCH 29/65] fix: correlation energy from global 2-RDM was
 multiplied by the number of MPI ranks

---
 vayesta/ewf/ewf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 2f87128..087b43e 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -397,7 +397,6 @@ class EWF(Embedding):
         e1 = np.sum(fock * dm1)
         return e1 / self.ncells
 
-    @mpi.with_allreduce()
     def get_dm_corr_energy_e2(self, dm2="projected-lambda", t_as_lambda=None):
         """Correlation energy due to cumulant"""
         if t_as_lambda is None:
@@ -423,6 +422,8 @@ class EWF(Embedding):
                 if ex is None or (t_as_lambda is not None and (t_as_lambda != x.opts.t_as_lambda)):
                     ex = x.make_fragment_dm2cumulant_energy(t_as_lambda=t_as_lambda)
                 e2 += x.symmetry_factor * x.sym_factor * ex
+            if mpi:
+                e2 = mpi.world.allreduce(e2)
         else:
             raise ValueError("Unknown value for dm2: '%s'" % dm2)
         return e2 / self.ncells
-- 
2.43.0


From 39a71f2cf06196d5975db03b551c05fc4723206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:24 +0000
Subject: [PATCH 30/65] fix: default dictionaries of options were shared
 between embedding objects

dict_with_defaults returned the same dictionary for every Options instance,
so that setting a key of one embedding's options changed the defaults of all
later ones.
---
 vayesta/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/util.py b/vayesta/core/util.py
index 38e3863..8c15fac 100644
--- a/vayesta/core/util.py
+++ b/vayesta/core/util.py
@@ -702,7 +702,7 @@ class OptionsBase:
 
     @staticmethod
     def dict_with_defaults(**kwargs):
-        return dataclasses.field(default_factory=lambda: kwargs)
+        return dataclasses.field(default_factory=lambda: dict(kwargs))
 
     @classmethod
     def change_dict_defaults(cls, field, **kwargs):
-- 
2.43.0


From 13749fa66a04d8d0f9fa957f7e440105397b1d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:24 +0000
Subject: [PATCH 31/65] fix: setattr_recursive called undefined function

---
 vayesta/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/util.py b/vayesta/core/util.py
index 8c15fac..14aa43f 100644
--- a/vayesta/core/util.py
+++ b/vayesta/core/util.py
@@ -563,7 +563,7 @@ def getattr_recursive(obj, attr, *args):
 
 def setattr_recursive(obj, attr, val):
     pre, _, post = attr.rpartition(".")
-    return setattr(rgetattr(obj, pre) if pre else obj, post, val)
+    return setattr(getattr_recursive(obj, pre) if pre else obj, post, val)
 
 
 @contextmanager
-- 
2.43.0


From 509ba7fab37c7099c56f5bcfdb3503ad77e71a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:24 +0000
Subject: [PATCH 32/65] fix: log_method kept the logger and class name of the
 first caller

---
 vayesta/core/util.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vayesta/core/util.py b/vayesta/core/util.py
index 14aa43f..8651392 100644
--- a/vayesta/core/util.py
+++ b/vayesta/core/util.py
@@ -479,14 +479,13 @@ def log_method(message="Time for %(classname).%(funcname): %s", log=None):
     def decorator(func):
         @functools.wraps(func)
         def wrapped(self, *args, **kwargs):
-            nonlocal message, log
-            message = message.replace("%(classname)", type(self).__name__)
-            message = message.replace("%(funcname)", func.__name__)
-            log = log or getattr(self, "log", False) or modlog
-            log.debugv("Entering method '%s'", func.__name__)
-            with log_time(log.timing, message):
+            msg = message.replace("%(classname)", type(self).__name__)
+            msg = msg.replace("%(funcname)", func.__name__)
+            logger = log or getattr(self, "log", False) or modlog
+            logger.debugv("Entering method '%s'", func.__name__)
+            with log_time(logger.timing, msg):
                 res = func(self, *args, **kwargs)
-            log.debugv("Exiting method '%s'", func.__name__)
+            logger.debugv("Exiting method '%s'", func.__name__)
             return res
 
         return wrapped
-- 
2.43.0


From ecfbb61f45e73ba83405d0a555b2a510cf3aa015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:24 +0000
Subject: [PATCH 33/65] fix: einsum passed its driver argument on to the driver

---
 vayesta/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/util.py b/vayesta/core/util.py
index 8651392..2f483fe 100644
--- a/vayesta/core/util.py
+++ b/vayesta/core/util.py
@@ -337,7 +337,7 @@ def einsum(subscripts, *operands, **kwargs):
         return _ordered_einsum(einsum, subscripts, *operands, **kwargs)
 
     kwargs["optimize"] = kwargs.get("optimize", True)
-    driver = kwargs.get("driver", np.einsum)
+    driver = kwargs.pop("driver", np.einsum)
     try:
         res = driver(subscripts, *operands, **kwargs)
     # Better shape information in case of exception:
-- 
2.43.0


From 0b1928f8846328ffb74fec79ba2e1361930e9c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:24 +0000
Subject: [PATCH 34/65] fix: spinalg.eigh used scipy without importing it

---
 vayesta/core/spinalg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/core/spinalg.py b/vayesta/core/spinalg.py
index 67c81ce..3f85437 100644
--- a/vayesta/core/spinalg.py
+++ b/vayesta/core/spinalg.py
@@ -2,6 +2,7 @@
 same functions"""
 
 import numpy as np
+import scipy.linalg
 from vayesta.core import util
 
 __all__ = ["add_numbers", "hstack_matrices"]
-- 
2.43.0


From b904e30204c4fa29fc3598d1abcd30cf09b372ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:33 +0000
Subject: [PATCH 35/65] fix: spinalg.dot failed for spin-independent matrices
 with a single row

---
 vayesta/core/spinalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/spinalg.py b/vayesta/core/spinalg.py
index 3f85437..500d4c1 100644
--- a/vayesta/core/spinalg.py
+++ b/vayesta/core/spinalg.py
@@ -46,7 +46,7 @@ def dot(*args, out=None):
     if out is None:
         out = 2 * [None]
     args_a = [(x if np.ndim(x[0]) < 2 else x[0]) for x in args]
-    args_b = [(x if np.ndim(x[1]) < 2 else x[1]) for x in args]
+    args_b = [(x if np.ndim(x[0]) < 2 else x[1]) for x in args]
     return (util.dot(*args_a, out=out[0]), util.dot(*args_b, out=out[1]))
 
 
-- 
2.43.0


From a6004c5b512eda57861014b6388f4d45e9687e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:58 +0000
Subject: [PATCH 36/65] fix: wrong k-point for all but first auxiliary block in
 kao2gmo_cderi

---
 vayesta/core/ao2mo/kao2gmo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vayesta/core/ao2mo/kao2gmo.py b/vayesta/core/ao2mo/kao2gmo.py
index ca2ab4a..b05f0c4 100644
--- a/vayesta/core/ao2mo/kao2gmo.py
+++ b/vayesta/core/ao2mo/kao2gmo.py
@@ -144,9 +144,8 @@ def kao2gmo_cderi(gdf, mo_coeffs, make_real=True, blksize=None, tril_kij=True, d
                     lij = transform(lab, mo1[ki], mo2[kj])
                     cderi_mo[kk, blk] += lij
                     if tril_kij and (ki > kj):
-                        kk = kconserv[kj, ki]
                         lij = transform(lab.transpose(0, 2, 1).conj(), mo1[kj], mo2[ki])
-                        cderi_mo[kk, blk] += lij
+                        cderi_mo[kconserv[kj, ki], blk] += lij
                 # For 2D systems:
                 elif sign == -1:
                     assert (ki == kj) and (sign == -1) and (lab.shape[0] == 1)
-- 
2.43.0


From e35d4212c796437624672e116d5307e07c9ad458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:22 +0000
Subject: [PATCH 37/65] fix: postscf_kao2gmo_uhf did not recognise UMP2 objects

---
 vayesta/core/ao2mo/postscf_ao2mo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/ao2mo/postscf_ao2mo.py b/vayesta/core/ao2mo/postscf_ao2mo.py
index bbafe99..221d02d 100644
--- a/vayesta/core/ao2mo/postscf_ao2mo.py
+++ b/vayesta/core/ao2mo/postscf_ao2mo.py
@@ -226,7 +226,7 @@ def postscf_kao2gmo_uhf(postscf, gdf, fock, mo_energy, e_hf=None, mo_coeff=None)
     cderi_neg = (cderia_neg, cderib_neg)
 
     # MP2
-    if isinstance(postscf, pyscf.mp.mp2.MP2):
+    if isinstance(postscf, pyscf.mp.ump2.UMP2):
         eris.ovov = _contract_cderi(cderia, cderia_neg)
         eris.OVOV = _contract_cderi(cderib, cderib_neg)
         eris.ovOV = _contract_cderi_mixed(cderi, cderi_neg)
-- 
2.43.0


From 6b854449aec7627b37bc77d5d3b6c4188fa77fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:07 +0000
Subject: [PATCH 38/65] fix: get_eris_object of unrestricted embedding did not
 recognise UMP2 and UCCSD objects

---
 vayesta/core/qemb/uqemb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/qemb/uqemb.py b/vayesta/core/qemb/uqemb.py
index 80b020a..8ed01dd 100644
--- a/vayesta/core/qemb/uqemb.py
+++ b/vayesta/core/qemb/uqemb.py
@@ -172,9 +172,9 @@ class UEmbedding(Embedding):
             ERIs which can be used for the respective post-SCF method.
         """
         if fock is None:
-            if isinstance(postscf, pyscf.mp.mp2.MP2):
+            if isinstance(postscf, pyscf.mp.ump2.UMP2):
                 fock = self.get_fock()
-            elif isinstance(postscf, (pyscf.ci.cisd.CISD, pyscf.cc.ccsd.CCSD)):
+            elif isinstance(postscf, (pyscf.ci.ucisd.UCISD, pyscf.cc.uccsd.UCCSD)):
                 fock = self.get_fock(with_exxdiv=False)
             else:
                 raise ValueError("Unknown post-HF method: %r", type(postscf))
-- 
2.43.0


From eacecf6e5fbb8d1d178b808bacc08b77da961c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:39 +0000
Subject: [PATCH 39/65] fix: attributes of the k-point mean-field were hidden
 by PySCF class defaults in folded mean-fields

---
 vayesta/core/foldscf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/foldscf.py b/vayesta/core/foldscf.py
index c2bb22d..a6fd37d 100644
--- a/vayesta/core/foldscf.py
+++ b/vayesta/core/foldscf.py
@@ -78,10 +78,11 @@ class FoldedSCF:
         if not np.allclose(kpt, 0):
             raise NotImplementedError()
 
-    def __getattr__(self, name):
-        if name in self._from_kmf:
+    def __getattribute__(self, name):
+        # Must take precedence over the class attributes (defaults) of the PySCF base classes
+        if name in FoldedSCF._from_kmf and name not in vars(FoldedSCF):
             return getattr(self.kmf, name)
-        raise AttributeError("'%s' object has no attribute '%s'" % (self.__class__.__name__, name))
+        return super().__getattribute__(name)
 
     def __setattr__(self, name, value):
         if name in self._from_kmf:
-- 
2.43.0


From 44b2449ecf9e7ffb89299bb16b8951866eb02210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:38 +0000
Subject: [PATCH 40/65] fix: rotations, reflections and inversions of Cartesian
 basis functions were wrong or raised errors

---
 vayesta/core/symmetry/operation.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/vayesta/core/symmetry/operation.py b/vayesta/core/symmetry/operation.py
index 85ffe88..d7d9770 100644
--- a/vayesta/core/symmetry/operation.py
+++ b/vayesta/core/symmetry/operation.py
@@ -13,6 +13,18 @@ log = logging.getLogger(__name__)
 BOHR = 0.529177210903
 
 
+def get_angular_rotmats(mol, rot):
+    """Transformation matrices of the basis functions of each angular momentum under a proper rotation."""
+    try:
+        get_rotmats = pyscf.symm.basis._momentum_rotation_matrices
+    except AttributeError:
+        get_rotmats = pyscf.symm.basis._ao_rotation_matrices
+    # The matrices of Cartesian basis functions are not orthogonal, i.e. the transpose is not the inverse:
+    if mol.cart:
+        return [x.T for x in get_rotmats(mol, rot.T)]
+    return get_rotmats(mol, rot)
+
+
 class SymmetryOperation:
     def __init__(self, group):
         self.group = group
@@ -179,7 +191,8 @@ class SymmetryInversion(SymmetryOperation):
         return 2 * self.center - r0
 
     def call_kernel(self, a):
-        rotmats = [(-1) ** i * np.eye(n) for (i, n) in enumerate(range(1, 19, 2))]
+        nbas = [((l + 1) * (l + 2) // 2 if self.mol.cart else 2 * l + 1) for l in range(9)]
+        rotmats = [(-1) ** l * np.eye(n) for (l, n) in enumerate(nbas)]
         a = self.rotate_angular_orbitals(a, rotmats)
         return a
 
@@ -199,10 +212,7 @@ class SymmetryReflection(SymmetryOperation):
         # A reflection can be decomposed into a C2-rotation + inversion
         # We use this to derive the angular transformation matrix:
         rot = scipy.spatial.transform.Rotation.from_rotvec(self.axis * np.pi).as_matrix()
-        try:
-            angular_rotmats = pyscf.symm.basis._momentum_rotation_matrices(self.mol, rot)
-        except AttributeError:
-            angular_rotmats = pyscf.symm.basis._ao_rotation_matrices(self.mol, rot)
+        angular_rotmats = get_angular_rotmats(self.mol, rot)
         # Inversion of p,f,h,... shells:
         self.angular_rotmats = [(-1) ** i * x for (i, x) in enumerate(angular_rotmats)]
 
@@ -233,10 +243,7 @@ class SymmetryRotation(SymmetryOperation):
         if self.atom_reorder is None:
             raise RuntimeError("Symmetry %s not found" % self)
         self.ao_reorder = self.get_ao_reorder(self.atom_reorder)[0]
-        try:
-            self.angular_rotmats = pyscf.symm.basis._momentum_rotation_matrices(self.mol, self.as_matrix())
-        except AttributeError:
-            self.angular_rotmats = pyscf.symm.basis._ao_rotation_matrices(self.mol, self.as_matrix())
+        self.angular_rotmats = get_angular_rotmats(self.mol, self.as_matrix())
 
     def __repr__(self):
         return "Rotation(%g,%g,%g)" % tuple(self.rotvec)
-- 
2.43.0


From 87dc5bcf172840b98dcd05d38d0225f57abf45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:48 +0000
Subject: [PATCH 41/65] fix: inverse of a translation raised an error and its
 real-space vector was wrong for non-orthogonal cells

---
 vayesta/core/symmetry/operation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/symmetry/operation.py b/vayesta/core/symmetry/operation.py
index d7d9770..bf979c6 100644
--- a/vayesta/core/symmetry/operation.py
+++ b/vayesta/core/symmetry/operation.py
@@ -295,7 +295,7 @@ class SymmetryTranslation(SymmetryOperation):
         return a * self.ao_reorder_phases[tuple([np.s_[:]] + (a.ndim - 1) * [None])]
 
     def inverse(self):
-        return type(self)(self.mol, -self.vector, boundary=self.boundary, atom_reorder=np.argsort(self.atom_reorder))
+        return type(self)(self.group, -self.vector, boundary=self.boundary)
 
     @property
     def lattice_vectors(self):
@@ -312,8 +312,7 @@ class SymmetryTranslation(SymmetryOperation):
     @property
     def vector_xyz(self):
         """Translation vector in real-space coordinates (unit = Bohr)."""
-        latvecs = self.lattice_vectors
-        vector_xyz = np.dot(self.lattice_vectors, self.vector)
+        vector_xyz = np.dot(self.vector, self.lattice_vectors)
         return vector_xyz
 
     @property
-- 
2.43.0


From 9e10f383ef8ad6f1c165a18a1c518e06b5a2df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:48 +0000
Subject: [PATCH 42/65] fix: clear_translations of the symmetry group had no
 effect

---
 vayesta/core/symmetry/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/symmetry/group.py b/vayesta/core/symmetry/group.py
index d0d1a1d..82d1700 100644
--- a/vayesta/core/symmetry/group.py
+++ b/vayesta/core/symmetry/group.py
@@ -74,4 +74,4 @@ class SymmetryGroup:
         self.translation = np.asarray(nimages)
 
     def clear_translations(self):
-        self.translations = None
+        self.translation = None
-- 
2.43.0


From bbe7b713f889ba1fb8223f7a588229a2d2e0fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:48 +0000
Subject: [PATCH 43/65] fix: translation vectors and boundary conditions passed
 by the caller were overwritten and small translations rounded to integers

---
 vayesta/core/symmetry/tsymmetry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/symmetry/tsymmetry.py b/vayesta/core/symmetry/tsymmetry.py
index 8475834..e86ad00 100644
--- a/vayesta/core/symmetry/tsymmetry.py
+++ b/vayesta/core/symmetry/tsymmetry.py
@@ -22,14 +22,14 @@ def get_mesh_tvecs(cell, tvecs, unit="Ang"):
         mesh = tvecs
         tvecs = [rvecs[d] / mesh[d] for d in range(3)]
     elif np.ndim(tvecs) == 2 and tvecs.shape == (3, 3):
+        tvecs = to_bohr(np.array(tvecs, dtype=float), unit)
         for d in range(3):
             if np.all(tvecs[d] == 0):
                 tvecs[d] = rvecs[d]
-        tvecs = to_bohr(tvecs, unit)
         mesh = []
         for d in range(3):
-            nd = np.round(np.linalg.norm(rvecs[d]) / np.round(np.linalg.norm(tvecs[d])))
-            if abs(nd - int(nd)) > 1e-14:
+            nd = np.round(np.linalg.norm(rvecs[d]) / np.linalg.norm(tvecs[d]))
+            if np.linalg.norm(rvecs[d] - nd * tvecs[d]) > 1e-6:
                 raise ValueError("Translationally vectors not consumerate with lattice vectors. Correct units?")
             mesh.append(int(nd))
     else:
@@ -154,6 +154,7 @@ def reorder_atoms(cell, tvec, boundary=None, unit="Ang", check_basis=True):
     for atm, coords in enumerate(atom_coords):
         log.debugv("%3d %f %f %f", atm, *coords)
     log.debugv("boundary= %r", boundary)
+    boundary = list(boundary)
     for d in range(3):
         if boundary[d].upper() == "PBC":
             boundary[d] = 1
-- 
2.43.0


From 2e4238a6477ea9cc8a6823e82bec28f2a6a43df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:13 +0000
Subject: [PATCH 44/65] fix: hopping matrix of 2D Hubbard models used a
 different order of sites than coordinates, tiles and boundary conditions

---
 vayesta/lattmod/latt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/lattmod/latt.py b/vayesta/lattmod/latt.py
index 03400ce..1c1bf7e 100644
--- a/vayesta/lattmod/latt.py
+++ b/vayesta/lattmod/latt.py
@@ -262,7 +262,8 @@ class Hubbard2D(Hubbard):
             fac *= bfac[0]
         if j % self.nsites[1] != j:
             fac *= bfac[1]
-        idx = (i % self.nsites[0]) * self.nsites[1] + (j % self.nsites[1])
+        # Same order of sites as in atom_coords and get_tiles_order:
+        idx = (j % self.nsites[1]) * self.nsites[0] + (i % self.nsites[0])
         return idx, fac
 
     def get_eri(self, hubbard_u=None, v_nn=None):
-- 
2.43.0


From 20383660b4c9a48a1200369bfa225b91a55942b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:13 +0000
Subject: [PATCH 45/65] fix: periodic boundary of 2D Hubbard models, when
 specified as 'periodic', was treated as antiperiodic by translations

---
 vayesta/lattmod/latt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vayesta/lattmod/latt.py b/vayesta/lattmod/latt.py
index 1c1bf7e..0e75a4a 100644
--- a/vayesta/lattmod/latt.py
+++ b/vayesta/lattmod/latt.py
@@ -225,6 +225,9 @@ class Hubbard2D(Hubbard):
                 raise NotImplementedError("Please specify boundary conditions.")
         if np.ndim(boundary) == 0:
             boundary = (boundary, boundary)
+        # Use the same names as the symmetry operations:
+        names = {"periodic": "PBC", "anti-periodic": "APBC"}
+        boundary = tuple(names.get(b.lower(), b) for b in boundary)
         self.boundary = boundary
 
         bfac = 2 * [None]
-- 
2.43.0


From 36a12df7fe6b96fac64988bb1b8d70c373a00b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:13 +0000
Subject: [PATCH 46/65] fix: get_index of the 1D Hubbard model raised an error
 for sites outside of the cell

---
 vayesta/lattmod/latt.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vayesta/lattmod/latt.py b/vayesta/lattmod/latt.py
index 0e75a4a..ac85820 100644
--- a/vayesta/lattmod/latt.py
+++ b/vayesta/lattmod/latt.py
@@ -176,11 +176,8 @@ class Hubbard1D(Hubbard):
         return coords / BOHR
 
     def get_index(self, i):
-        bfac = self.bfac
-        fac = 1
-        if i % self.nsites[0] != i:
-            fac *= bfac[0] * (i // self.nsites[0])
-        idx = i
+        ncross, idx = divmod(i, self.nsites[0])
+        fac = self.bfac if (ncross % 2) else 1
         return idx, fac
 
 
-- 
2.43.0


From da84b8ad469d22534e2e6114c15658d9b52b8334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:35 +0000
Subject: [PATCH 47/65] fix: nested symmetries raised an error for unrestricted
 mean-fields

---
 vayesta/core/qemb/ufragment.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vayesta/core/qemb/ufragment.py b/vayesta/core/qemb/ufragment.py
index dee4fbd..2ebb5c9 100644
--- a/vayesta/core/qemb/ufragment.py
+++ b/vayesta/core/qemb/ufragment.py
@@ -223,15 +223,11 @@ class UFragment(Fragment):
         dma, dmb = dm1
         ovlp = self.base.get_ovlp()
         # This fragment (x)
-        cxa, cxb = spinalg.hstack_matrices(self.c_frag, self.c_env)
+        cxa, cxb = spinalg.hstack_matrices(self.c_frag, self.get_coeff_env())
         dmxa = dot(cxa.T, ovlp, dma, ovlp, cxa)
         dmxb = dot(cxb.T, ovlp, dmb, ovlp, cxb)
         # Other fragment (y)
-        if frag.c_env is None:
-            cy_env = frag.sym_op(self.c_env)
-        else:
-            cy_env = frag.c_env
-        cya, cyb = spinalg.hstack_matrices(frag.c_frag, cy_env)
+        cya, cyb = spinalg.hstack_matrices(frag.c_frag, frag.get_coeff_env())
         dmya = dot(cya.T, ovlp, dma, ovlp, cya)
         dmyb = dot(cyb.T, ovlp, dmb, ovlp, cyb)
         charge_err = abs(dmxa + dmxb - dmya - dmyb).max()
-- 
2.43.0


From 021e4d078b97b4e3ee39a3e3a455ac343da86e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 48/65] fix: CISD solver reported convergence when the
 eigensolver had not converged

---
 vayesta/solver/cisd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/solver/cisd.py b/vayesta/solver/cisd.py
index 46a7cca..4389817 100644
--- a/vayesta/solver/cisd.py
+++ b/vayesta/solver/cisd.py
@@ -1,5 +1,6 @@
 import dataclasses
 
+import numpy as np
 from pyscf import ci
 
 from vayesta.core.types import CISD_WaveFunction
@@ -31,7 +32,7 @@ class RCISD_Solver(ClusterSolver):
         ecisd, civec = mycisd.kernel()
         c0, c1, c2 = mycisd.cisdvec_to_amplitudes(civec)
         self.wf = CISD_WaveFunction(self.hamil.mo, c0, c1, c2)
-        self.converged = True
+        self.converged = np.all(mycisd.converged)
 
     def get_solver_class(self):
         return ci.RCISD
-- 
2.43.0


From 766dce4fa40738b132a8775d2428a58de315c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 49/65] fix: optimization of the chemical potential assumed an
 initial guess of zero

---
 vayesta/solver/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vayesta/solver/solver.py b/vayesta/solver/solver.py
index f893487..3880c57 100644
--- a/vayesta/solver/solver.py
+++ b/vayesta/solver/solver.py
@@ -93,8 +93,8 @@ class ClusterSolver:
 
             def electron_err(cpt):
                 nonlocal result, err, err0, cpt_opt, iterations, init_guess
-                # Avoid recalculation of cpt=0.0 in SciPy:
-                if (cpt == 0) and (err0 is not None):
+                # Avoid recalculation of cpt=cpt_guess in SciPy:
+                if (cpt == cpt_guess) and (err0 is not None):
                     self.log.debugv("Chemical potential %f already calculated - returning error= %.8f", cpt, err0)
                     return err0
 
@@ -170,14 +170,14 @@ class ClusterSolver:
                     break
                 # Could not find chemical potential in bracket:
                 except ValueError:
-                    bounds *= 2
+                    bounds = cpt_guess + 2 * (bounds - cpt_guess)
                     self.log.warning(
                         "Interval for chemical potential search too small. New search interval: [%f %f]", *bounds
                     )
                     continue
                 # Could not convergence in bracket:
                 except ConvergenceError:
-                    bounds /= 2
+                    bounds = cpt_guess + (bounds - cpt_guess) / 2
                     self.log.warning("Solver did not converge. New search interval: [%f %f]", *bounds)
                     continue
                 raise RuntimeError("Invalid state: electron error= %.3e" % err)
-- 
2.43.0


From 74101fa6e370098ff4d10fc0f058f26ea8a82290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:37 +0000
Subject: [PATCH 50/65] fix: compressed density-fitting integrals of the two
 spin channels were expressed in different auxiliary bases

---
 vayesta/solver/hamiltonian.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index fe4477c..58fb166 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -730,18 +730,20 @@ class UClusterHamiltonian(RClusterHamiltonian):
         if compress:
             # SVD and compress the cderi tensor. This scales as O(N_{aux} N_{clus}^4), so this will be worthwhile
             # provided the following approach has a lower scaling than this.
-            def compress_cderi(cd):
-                naux, n1, n2 = cd.shape
-                u, s, v = np.linalg.svd(cd.reshape(naux, n1 * n2), full_matrices=False)
+            # Both spin channels need to be expressed in the same compressed auxiliary basis.
+            def compress_cderi(cds):
+                naux = cds[0].shape[0]
+                sizes = [cd[0].size for cd in cds]
+                cd = np.concatenate([cd.reshape(naux, size) for cd, size in zip(cds, sizes)], axis=1)
+                u, s, v = np.linalg.svd(cd, full_matrices=False)
                 want = s > svd_threshold
                 self.log.debugv("CDERIs auxbas compressed from %d to %d in size", naux, sum(want))
-                return einsum("n,nq->nq", s[want], v[want]).reshape(-1, n1, n2)
+                sv = np.split(einsum("n,nq->nq", s[want], v[want]), np.cumsum(sizes)[:-1], axis=1)
+                return tuple(x.reshape(-1, *cd.shape[1:]) for x, cd in zip(sv, cds))
 
-            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[1]))
+            cderi = compress_cderi(cderi)
             if cderi_neg[0] is not None:
-                cderi_neg = (compress_cderi(cderi_neg[0]), cderi_neg[1])
-            if cderi_neg[1] is not None:
-                cderi_neg = (cderi_neg[0], compress_cderi(cderi_neg[1]))
+                cderi_neg = compress_cderi(cderi_neg)
 
         return cderi, cderi_neg
 
-- 
2.43.0


From e2f7a437d7bafa2c9614fe21d4e82a78f4ba1251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:22 +0000
Subject: [PATCH 51/65] fix: combined external and delta-tailor corrections
 were all or none divided by energy denominators

---
 vayesta/solver/coupling.py | 42 ++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/vayesta/solver/coupling.py b/vayesta/solver/coupling.py
index b93ba97..3deb358 100644
--- a/vayesta/solver/coupling.py
+++ b/vayesta/solver/coupling.py
@@ -601,6 +601,22 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             np.zeros((nocc[1], nocc[1], nvir[1], nvir[1])),
         )
 
+    def residual_to_amplitudes(dt1, dt2):
+        # Contract with fragment x (CCSD) energy denominators
+        # Note that this will not work correctly if a level shift used
+        if emb.spinsym == "restricted":
+            eia = mo_energy[:nocc, None] - mo_energy[None, nocc:]
+            eijab = pyscf.lib.direct_sum("ia,jb->ijab", eia, eia)
+            return dt1 / eia, dt2 / eijab
+        eia_a = mo_energy[0][: nocc[0], None] - mo_energy[0][None, nocc[0] :]
+        eia_b = mo_energy[1][: nocc[1], None] - mo_energy[1][None, nocc[1] :]
+        eijab_aa = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_a)
+        eijab_ab = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_b)
+        eijab_bb = pyscf.lib.direct_sum("ia,jb->ijab", eia_b, eia_b)
+        dt1 = (dt1[0] / eia_a, dt1[1] / eia_b)
+        dt2 = (dt2[0] / eijab_aa, dt2[1] / eijab_ab, dt2[2] / eijab_bb)
+        return dt1, dt2
+
     frag_dir = {f.id: f for f in emb.fragments}
     for y, corrtype, projectors, low_level_coul in external_corrections:
         fy = frag_dir[y]  # Get fragment y object from its index
@@ -630,8 +646,6 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
         rxy_vir = spinalg.dot(cxs_vir, fy.cluster.c_active_vir)
         dt1y = transform_amplitude(dt1y, rxy_occ, rxy_vir, inverse=True)
         dt2y = transform_amplitude(dt2y, rxy_occ, rxy_vir, inverse=True)
-        dt1 = spinalg.add(dt1, dt1y)
-        dt2 = spinalg.add(dt2, dt2y)
 
         if low_level_coul and corrtype == "external":
             # Include the t3v term, contracting with the integrals from the x cluster
@@ -640,7 +654,7 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             dt2y_t3v = _get_delta_t2_from_t3v(
                 govvv_x, gvvov_x, gooov_x, govoo_x, fy, rxy_occ, rxy_vir, cxs_occ, projectors
             )
-            dt2 = spinalg.add(dt2, dt2y_t3v)
+            dt2y = spinalg.add(dt2y, dt2y_t3v)
 
         solver.log.info(
             "External correction residuals from fragment %3d (%s via %s):  dT1= %.3e  dT2= %.3e",
@@ -650,15 +664,13 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             *get_amplitude_norm(dt1y, dt2y),
         )
 
-    if emb.spinsym == "restricted":
+        # Residuals need to be converted to amplitudes, amplitude differences do not
         if corrtype == "external":
-            # Contract with fragment x (CCSD) energy denominators
-            # Note that this will not work correctly if a level shift used
-            eia = mo_energy[:nocc, None] - mo_energy[None, nocc:]
-            eijab = pyscf.lib.direct_sum("ia,jb->ijab", eia, eia)
-            dt1 /= eia
-            dt2 /= eijab
+            dt1y, dt2y = residual_to_amplitudes(dt1y, dt2y)
+        dt1 = spinalg.add(dt1, dt1y)
+        dt2 = spinalg.add(dt2, dt2y)
 
+    if emb.spinsym == "restricted":
         solver.log.info(
             "Total external correction amplitudes from all fragments:  dT1= %.3e  dT2= %.3e",
             *get_amplitude_norm(dt1, dt2),
@@ -671,16 +683,6 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             t2[:] += dt2
 
     elif emb.spinsym == "unrestricted":
-        if corrtype == "external":
-            eia_a = mo_energy[0][: nocc[0], None] - mo_energy[0][None, nocc[0] :]
-            eia_b = mo_energy[1][: nocc[1], None] - mo_energy[1][None, nocc[1] :]
-            eijab_aa = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_a)
-            eijab_ab = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_b)
-            eijab_bb = pyscf.lib.direct_sum("ia,jb->ijab", eia_b, eia_b)
-
-            dt1 = (dt1[0] / eia_a, dt1[1] / eia_b)
-            dt2 = (dt2[0] / eijab_aa, dt2[1] / eijab_ab, dt2[2] / eijab_bb)
-
         solver.log.info(
             "Total external correction amplitudes from all fragments:  dT1= %.3e  dT2= %.3e",
             *get_amplitude_norm(dt1, dt2),
-- 
2.43.0


From 3f0466f87d460e9dc881e5d707cb2887da66e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 52/65] fix: opposite-spin part of decomposed
 exchange-correlation kernels was built from the alpha-alpha factors in ssRPA

---
 vayesta/rpa/rirpa/RIRPA.py | 2 +-
 vayesta/rpa/ssrpa.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index a257a61..0bde61b 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -699,7 +699,7 @@ class ssRIRRPA:
         if self.rixc is not None:
             xc_kernel = [
                 einsum("npq,nrs->pqrs", *self.rixc[0]),
-                einsum("npq,nrs->pqrs", self.rixc[0][0], self.rixc[0][1]),
+                einsum("npq,nrs->pqrs", self.rixc[0][0], self.rixc[1][1]),
                 einsum("npq,nrs->pqrs", *self.rixc[1]),
             ]
         fullrpa = ssRPA(self.mf)
diff --git a/vayesta/rpa/ssrpa.py b/vayesta/rpa/ssrpa.py
index cb6c886..845e470 100644
--- a/vayesta/rpa/ssrpa.py
+++ b/vayesta/rpa/ssrpa.py
@@ -248,7 +248,7 @@ class ssRPA:
         if not isinstance(xc_kernel[0], np.ndarray):
             xc_kernel = [
                 einsum("npq,nrs->pqrs", *xc_kernel[0]),
-                einsum("npq,nrs->pqrs", xc_kernel[0][0], xc_kernel[0][1]),
+                einsum("npq,nrs->pqrs", xc_kernel[0][0], xc_kernel[1][1]),
                 einsum("npq,nrs->pqrs", *xc_kernel[1]),
             ]
         c_o_a, c_o_b = c_o if isinstance(c_o, tuple) else (c_o, c_o)
-- 
2.43.0


From 65eb4555729c7d9ce35ca153d87cb2bc997e9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 53/65] fix: compression of low-rank representations in RIRPA
 gave complex or wrong results

---
 vayesta/rpa/rirpa/RIRPA.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index 0bde61b..5ce685b 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -777,16 +777,17 @@ def construct_inverse_RI(D, ri):
 def compress_low_rank(ri_l, ri_r, tol=1e-12, log=None, name=None):
     naux_init = ri_l.shape[0]
 
-    inner_prod = dot(ri_l, ri_r.T)
+    # Singular value decomposition of ri_l.T @ ri_r, via QR decompositions of both factors.
+    q_l, r_l = np.linalg.qr(ri_l.T)
+    q_r, r_r = np.linalg.qr(ri_r.T)
+    u, s, v = np.linalg.svd(dot(r_l, r_r.T))
 
-    e, c = np.linalg.eig(inner_prod)
-
-    want = e > tol
+    want = s > tol
     nwant = sum(want)
-    rot = c[:, want]
+    srt = s[want] ** (0.5)
 
-    ri_l = dot(rot.T, ri_l)
-    ri_r = dot(rot.T, ri_r)
+    ri_l = dot(q_l, u[:, want] * srt[None]).T
+    ri_r = dot(q_r, v[want].T * srt[None]).T
     if nwant < naux_init and log is not None:
         if name is None:
             log.info(
-- 
2.43.0


From 35603a5bc1cb43dbda2e2e36973b571397453491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 54/65] fix: adaptive quadrature in RIRPA raised an error

---
 vayesta/rpa/rirpa/RIRPA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index 5ce685b..bdf29a4 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -304,7 +304,8 @@ class ssRIRRPA:
 
         if adaptive_quad:
             # Can also make use of scipy adaptive quadrature routines; this is more expensive but a good sense-check.
-            integral, upper_bound = 2 * niworker.kernel_adaptive()
+            # Integrand is even; adaptive quadrature only integrates over positive frequencies.
+            integral, upper_bound = (2 * x for x in niworker.kernel_adaptive())
         else:
             integral, upper_bound = niworker.kernel(a=ainit, opt_quad=opt_quad)
 
-- 
2.43.0


From 3f87d0640732dc308766c29f412783876ca7aecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 55/65] fix: RIRPA moments ignored the interaction scaling and
 integration of the adiabatic connection raised an error

---
 vayesta/rpa/rirpa/RIRPA.py   | 5 +++--
 vayesta/rpa/rirpa/RIdRRPA.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index bdf29a4..a235397 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -205,7 +205,7 @@ class ssRIRRPA:
             self.log.warning("Warning; generating full moment rather than local component. Will scale as O(N^5).")
             target_rot = np.eye(self.ov_tot)
 
-        ri_decomps = self.get_compressed_MP()
+        ri_decomps = self.get_compressed_MP(kwargs.get("alpha", 1.0))
         ri_mp, ri_apb, ri_amb = ri_decomps
         # First need to calculate zeroth moment.
         moments = np.zeros((max_moment + 1,) + target_rot.shape)
@@ -425,7 +425,8 @@ class ssRIRRPA:
         local_rot describes the rotation of the ov-excitations to the space of local excitations within a cluster, while
         fragment_projectors gives the projector within this local excitation space to the actual fragment."""
         # Get the coulomb integrals.
-        ri_eri, ri_eri_neg = self.get_apb_eri_ri() / np.sqrt(2)
+        ri_eri, ri_eri_neg = self.get_apb_eri_ri()
+        ri_eri = ri_eri / np.sqrt(2)
 
         # TODO use ri_eri_neg here.
         def get_eta_alpha(alpha, target_rot):
diff --git a/vayesta/rpa/rirpa/RIdRRPA.py b/vayesta/rpa/rirpa/RIdRRPA.py
index 2478e77..08e59d4 100644
--- a/vayesta/rpa/rirpa/RIdRRPA.py
+++ b/vayesta/rpa/rirpa/RIdRRPA.py
@@ -23,7 +23,7 @@ class ssRIdRRPA(ssRIRRPA):
             else:
                 target_rot = np.eye(self.ov_tot)
 
-        ri_decomps = self.get_compressed_MP()
+        ri_decomps = self.get_compressed_MP(kwargs.get("alpha", 1.0))
         ri_mp, ri_apb, ri_amb = ri_decomps
         # First need to calculate zeroth moment. This only generates the spin-independent contribution in a single
         # spin channel; the spin-dependent contribution is just the identity rotated to our target rotation.
-- 
2.43.0


From 99ab05519e764e9c0ecf15104400d2716aa216d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 56/65] fix: unrestricted RPA raised a NameError for
 spin-dependent integrals

---
 vayesta/rpa/ssurpa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/rpa/ssurpa.py b/vayesta/rpa/ssurpa.py
index 3dd10c8..4bc330c 100644
--- a/vayesta/rpa/ssurpa.py
+++ b/vayesta/rpa/ssurpa.py
@@ -2,6 +2,8 @@ from vayesta.rpa.ssrpa import ssRPA
 import numpy as np
 import scipy.linalg
 
+import pyscf.ao2mo
+
 from timeit import default_timer as timer
 from vayesta.core.util import dot, time_string, einsum
 
-- 
2.43.0


From 6b0da677245952962e6f24bcdda95a254cb8ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 57/65] fix: RPA with arbitrary kernels raised an error

---
 vayesta/rpa/rpa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vayesta/rpa/rpa.py b/vayesta/rpa/rpa.py
index 0cc43fe..eb404ca 100644
--- a/vayesta/rpa/rpa.py
+++ b/vayesta/rpa/rpa.py
@@ -76,7 +76,7 @@ class RPA:
         self.freqs_sf, self.e_corr_sf, self.XpY_sf, self.XmY_sf = solve_RPA_problem(ApB_sf, AmB_sf)
         self.log.timing("Time to solve RPA problems: %s", time_string(timer() - t0))
 
-        if xc_kernel == "rpax":
+        if isinstance(xc_kernel, str) and xc_kernel.lower() == "rpax":
             # Additional factor of 0.5.
             self.e_corr_ss *= 0.5
             self.e_corr_sf *= 0.5
@@ -131,7 +131,7 @@ class RPA:
 
         If TDA is specified all appropriate couplings will be zeroed.
         """
-        if xc_kernel is None or xc_kernel.lower() == "drpa":
+        if xc_kernel is None or (isinstance(xc_kernel, str) and xc_kernel.lower() == "drpa"):
             self.log.info("RPA using coulomb interaction kernel.")
             eris = self.ao2mo()
 
@@ -144,7 +144,7 @@ class RPA:
                 (np.zeros_like(v), np.zeros_like(v)),
             )
 
-        elif xc_kernel.lower() == "rpax":
+        elif isinstance(xc_kernel, str) and xc_kernel.lower() == "rpax":
             self.log.info("RPA using coulomb-exchange interaction kernel.")
             eris = self.ao2mo()
             v = eris[: self.nocc, self.nocc :, : self.nocc, self.nocc :]
-- 
2.43.0


From d2aa67e5b15fa71a3a2746f3ed16ee8ba893a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 58/65] fix: exchange-correlation kernel passed as positional
 argument to ssRIRPA was ignored

---
 vayesta/rpa/rirpa/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/vayesta/rpa/rirpa/__init__.py b/vayesta/rpa/rirpa/__init__.py
index 73a2c76..52bf2df 100644
--- a/vayesta/rpa/rirpa/__init__.py
+++ b/vayesta/rpa/rirpa/__init__.py
@@ -4,10 +4,9 @@ from vayesta.rpa.rirpa.RIdRRPA import ssRIdRRPA
 import pyscf.scf
 
 
-def ssRIRPA(mf, *args, **kwargs):
+def ssRIRPA(mf, rixc=None, *args, **kwargs):
     if isinstance(mf, pyscf.scf.uhf.UHF):
-        return ssRIURPA(mf, *args, **kwargs)
-    if "rixc" in kwargs:
-        if kwargs["rixc"] is not None:
-            return ssRIRRPA(mf, *args, **kwargs)
-    return ssRIdRRPA(mf, *args, **kwargs)
+        return ssRIURPA(mf, rixc, *args, **kwargs)
+    if rixc is not None:
+        return ssRIRRPA(mf, rixc, *args, **kwargs)
+    return ssRIdRRPA(mf, rixc, *args, **kwargs)
-- 
2.43.0


From e550bb683aa63b7ed77b57f7c879f1452af00250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 59/65] fix: get_gap of restricted direct RIRPA raised an error

---
 vayesta/rpa/rirpa/RIdRRPA.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vayesta/rpa/rirpa/RIdRRPA.py b/vayesta/rpa/rirpa/RIdRRPA.py
index 08e59d4..bfdfa9a 100644
--- a/vayesta/rpa/rirpa/RIdRRPA.py
+++ b/vayesta/rpa/rirpa/RIdRRPA.py
@@ -229,6 +229,12 @@ class ssRIdRRPA(ssRIRRPA):
             ri_mp = self.compress_low_rank(*ri_mp, name="(A-B)(A+B)")
         return ri_mp, ri_apb, ri_amb
 
+    @with_doc(ssRIRRPA.get_gap)
+    def get_gap(self, *args, **kwargs):
+        # Requires decompositions in the full spin-orbital space.
+        rpa = ssRIRRPA(self.mf, log=self.log, svd_tol=self.svd_tol, lov=self.lov, compress=self.compress)
+        return rpa.get_gap(*args, **kwargs)
+
     def check_target_rot(self, target_rot):
         stack_spins = False
         if target_rot is None:
-- 
2.43.0


From 2195f3c95b705b7f08fc6dd3de286d1822ee6f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:06 +0000
Subject: [PATCH 60/65] fix: full unrestricted spin-spin correlation raised
 NameError

---
 vayesta/misc/corrfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/misc/corrfunc.py b/vayesta/misc/corrfunc.py
index 67c46dd..01ef961 100644
--- a/vayesta/misc/corrfunc.py
+++ b/vayesta/misc/corrfunc.py
@@ -76,7 +76,7 @@ def spinspin_z_unrestricted(dm1, dm2, proj1=None, proj2=None):
         proj2 = proj1
     if proj1 is None:
         ssz = einsum("iijj->", dm2aa) / 4 + einsum("iijj->", dm2bb) / 4 - einsum("iijj->", dm2ab) / 2
-        ssz += (np.trace(dma) + np.trace(dmb)) / 4
+        ssz += (np.trace(dm1a) + np.trace(dm1b)) / 4
         return ssz
     p1a, p1b = _get_proj_per_spin(proj1)
     p2a, p2b = _get_proj_per_spin(proj2)
-- 
2.43.0


From 18e76307e7a8657f381dbbfc0e724aeb3c9c056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:06 +0000
Subject: [PATCH 61/65] fix: cluster population analysis with UHF reference
 raised an error

---
 vayesta/core/qemb/fragment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 710e68f..795ab44 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -1141,7 +1141,9 @@ class Fragment:
             dm1 = self.results.dm1
         if dm1 is None:
             raise ValueError("DM1 not found for %s" % self)
-        dm1 = cluster.make_frozen_rdm1() + spinalg.dot(cluster.coeff, dm1, spinalg.T(cluster.coeff))
+        dm1 = spinalg.add(
+            cluster.make_frozen_rdm1(), spinalg.dot(cluster.coeff, dm1, spinalg.T(cluster.coeff))
+        )
         return self.base.pop_analysis(dm1, **kwargs)
 
     def plot3d(self, filename, gridsize=(100, 100, 100), **kwargs):
-- 
2.43.0


From a99abfb31375eaabd0a5c6c008a5ea1278ed5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:03 +0000
Subject: [PATCH 62/65] fix: density matrices of a previous calculation were
 returned after running kernel again

---
 vayesta/ewf/ewf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 087b43e..1c4d13b 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -104,6 +104,8 @@ class EWF(Embedding):
     def kernel(self):
         """Run EWF."""
         t_start = timer()
+        # Density-matrices of previous calculations are no longer valid
+        self._make_rdm1_ccsd_global_wf_cached.cache_clear()
         # Automatic fragmentation
         if len(self.fragments) == 0:
             self.log.debug("No fragments found. Adding all atomic IAO fragments.")
-- 
2.43.0


From 884ea868c8ef45c72e99761f1bacab0c8adbd41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 63/65] fix: arguments of the optimised function were dropped
 within chemical potential bisection

---
 vayesta/misc/cptbisect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/misc/cptbisect.py b/vayesta/misc/cptbisect.py
index 812bdcf..f0ae3b8 100644
--- a/vayesta/misc/cptbisect.py
+++ b/vayesta/misc/cptbisect.py
@@ -50,7 +50,7 @@ class ChempotBisection:
 
         it = 1
 
-        def iteration(cpt, *args, **kwargs):
+        def iteration(cpt):
             nonlocal it
             if cpt == cpt1:
                 err = err1
-- 
2.43.0


From 149bd82bdf5117fd4c478ab14a19e9a85e8ef2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:22 +0000
Subject: [PATCH 64/65] fix: get_fragments ignored option filters if combined
 with flag filters

---
 vayesta/core/qemb/qemb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 953958e..963ba2b 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1152,6 +1152,8 @@ class Embedding:
                 skip = _skip(attr, filt)
                 if skip:
                     break
+            if skip:
+                continue
             # Check flags:
             for key, filt in flags.items():
                 attr = getattr_recursive(frag.flags, key)
-- 
2.43.0


From 4cedad3f6bd5c50eef532da9c6875318cf53043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:22 +0000
Subject: [PATCH 65/65] fix: tcc_fci_opts could not be set and was not passed
 to the FCI solver of TCCSD

---
 vayesta/ewf/fragment.py | 4 ++--
 vayesta/solver/tccsd.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index b6c83f1..70f88a1 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -52,7 +52,7 @@ class Options(BaseFragment.Options):
     c_cas_vir: np.ndarray = None
     # --- Solver options
     # "TCCSD-solver":
-    tcc_fci_opts: dict = dataclasses.field(default_factory=dict)
+    tcc_fci_opts: dict = None
     # --- Couple embedding problems (currently only CCSD and MPI)
     # coupled_iterations: bool = None # Now accessible through solver=coupledCCSD setting.
 
@@ -338,7 +338,7 @@ class Fragment(BaseFragment):
             solver_opts["c_cas_occ"] = self.opts.c_cas_occ
             solver_opts["c_cas_vir"] = self.opts.c_cas_vir
             if solver == "TCCSD":
-                solver_opts["tcc_fci_opts"] = self.opts.tcc_fci_opts
+                solver_opts["fci_opts"] = self.opts.tcc_fci_opts or {}
         elif solver.upper() == "DUMP":
             solver_opts["filename"] = self.opts.solver_options["dumpfile"]
         if solver.upper() == 'CALLBACK':
diff --git a/vayesta/solver/tccsd.py b/vayesta/solver/tccsd.py
index 8694e2d..8d3b5e6 100644
--- a/vayesta/solver/tccsd.py
+++ b/vayesta/solver/tccsd.py
@@ -23,7 +23,7 @@ class TRCCSD_Solver(RCCSD_Solver):
         # Dummy cluster without any environmental orbitals.
         tclus = Cluster(orbs, None)
         tham = self.hamil.with_new_cluster(tclus)
-        fci = FCI_Solver(tham)
+        fci = FCI_Solver(tham, **self.opts.fci_opts)
         # Need to set v_ext for the FCI calculation. Just want rotation into our current basis.
         ro = dot(self.hamil.cluster.c_active_occ.T, self.hamil.orig_mf.get_ovlp(), tclus.c_active_occ)
         rv = dot(self.hamil.cluster.c_active_vir.T, self.hamil.orig_mf.get_ovlp(), tclus.c_active_vir)
-- 
2.43.0


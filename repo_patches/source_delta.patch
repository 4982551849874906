From 666ec0a794573ac114781bc2ac813254326e6d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 01/36] fix: choose the signs of spinor rotations reproducibly

The starting points of the fit came from numpy's global random generator, so
the signs (and with them traces and labels) changed from run to run.
---
 irrep/spacegroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index cf9830d..397b917 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -934,8 +934,9 @@ class SpaceGroup():
             """
             return residue_matrix(RR(x)) / len(S1)
 
+        rng = np.random.RandomState(0)  # private, so that signs do not change from run to run
         for i in range(11):
-            x0 = np.random.random(2 * n * n)
+            x0 = rng.random_sample(2 * n * n)
             res = minimize(residue, x0)
             r = res.fun
             if r < 1e-4:
-- 
2.43.0


From a3281c024fcdaaaf4f4920121a164c4eb41c4757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 02/36] fix: close trace.txt, so that a failing write is
 reported

The file was left to the garbage collector, which ignores errors of the final
flush: a full disk gave a truncated trace.txt and a successful exit.
---
 irrep/bandstructure.py | 46 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7ba4f8b..f88226f 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -601,32 +601,32 @@ class BandStructure:
         in `BCS <https://www.cryst.ehu.es/cgi-bin/cryst/programs/topological.pl>`_ .
         """
 
-        f = open("trace.txt", "w")
-        f.write(
-            (
-                " {0}  \n"
-                + " {1}  \n"  # Number of bands below the Fermi level  # Spin-orbit coupling. No: 0, Yes: 1
-            ).format(self.num_bands, 1 if self.spinor else 0)
-        )
-
-        f.write(
-                self.spacegroup.write_trace()
-                )
-        # Number of maximal k-vectors in the space group. In the next files
-        # introduce the components of the maximal k-vectors))
-        f.write("  {0}  \n".format(len(self.kpoints)))
-        for KP in self.kpoints:
+        with open("trace.txt", "w") as f:
             f.write(
-                "   ".join(
-                    "{0:10.6f}".format(x)
-                    for x in KP.k
-                )
-                + "\n"
+                (
+                    " {0}  \n"
+                    + " {1}  \n"  # Number of bands below the Fermi level  # Spin-orbit coupling. No: 0, Yes: 1
+                ).format(self.num_bands, 1 if self.spinor else 0)
             )
-        for KP in self.kpoints:
+
             f.write(
-                KP.write_trace()
-            )
+                    self.spacegroup.write_trace()
+                    )
+            # Number of maximal k-vectors in the space group. In the next files
+            # introduce the components of the maximal k-vectors))
+            f.write("  {0}  \n".format(len(self.kpoints)))
+            for KP in self.kpoints:
+                f.write(
+                    "   ".join(
+                        "{0:10.6f}".format(x)
+                        for x in KP.k
+                    )
+                    + "\n"
+                )
+            for KP in self.kpoints:
+                f.write(
+                    KP.write_trace()
+                )
 
     def Separate(self, isymop, degen_thresh=1e-5, groupKramers=True, v=0):
         """
-- 
2.43.0


From e5f1e42faea997e11df28587cca82084b6d45e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:19 +0000
Subject: [PATCH 03/36] fix: order of plane waves in WAVECAR when the G-box is
 one short

The box holds max - min + 1 indices; one less maps the outermost positive and
negative indices onto each other, so coefficients were attached to the wrong
plane waves and traces and irreps came out wrong.
---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 85bf2b4..bc665d1 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -148,7 +148,7 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0)
+    ng = igall.max(axis=0) - igall.min(axis=0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From db3af3ea0ab27e6c4d640e8f58aade3ddbcd1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:20 +0000
Subject: [PATCH 04/36] fix: reject a WAVECAR that ends inside a wave function

A record of which only one coefficient could be read was broadcast over all
plane waves, giving wrong traces without any error.
---
 irrep/readfiles.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 5682ee6..74bd578 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -64,7 +64,12 @@ class WAVECARFILE:
     def record(self, irec, cnt=np.inf, dtype=float):
         """An auxilary function to get records from WAVECAR"""
         self.f.seek(irec * self.rl)
-        return np.fromfile(self.f, dtype=dtype, count=min(self.rl, cnt))
+        data = np.fromfile(self.f, dtype=dtype, count=min(self.rl, cnt))
+        if cnt < np.inf and len(data) != cnt:
+            raise RuntimeError(
+                "WAVECAR is incomplete: expected {0} numbers in record {1}, "
+                "found {2}".format(cnt, irec, len(data)))
+        return data
 
 
 def record_abinit(fWFK, st):
-- 
2.43.0


From d2092ad30a7973b7268ed71b780aa4b9bb51c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:20 +0000
Subject: [PATCH 05/36] fix: phase of symmetry matrices of non-symmorphic
 operations

symm_matrix used A.T where symm_eigenvalues uses inv(A).T, so the matrix of an
operation of order higher than two with a fractional translation was not unitary
in degenerate subspaces and separation by symmetry was wrong.
---
 irrep/gvectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index bc665d1..f0626e2 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -414,7 +414,9 @@ def symm_matrix(
         Bloch Hamiltonian :math:`H(k)`.
     """
     npw1 = igall.shape[1]
-    multZ = np.exp(-1.0j * (2 * np.pi * A.dot(T).dot(igall[:3, :] + K[:, None])))
+    multZ = np.exp(
+        -1.0j * (2 * np.pi * np.linalg.inv(A).dot(T).dot(igall[:3, :] + K[:, None]))
+    )
     igrot = transformed_g(K, igall, RecLattice, A)
     if spinor:
         WF1 = np.stack([WF[:, igrot], WF[:, igrot + npw1]], axis=2).conj()
-- 
2.43.0


From 5012eb6f21a6e9d34f4e7a5b7739eb7ea7f22ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:15 +0000
Subject: [PATCH 06/36] fix: read any selection of k-points from an Abinit WFK
 file

Skipping a k-point skipped only one of its band records and compared its header
with that of the requested point, and going backwards was impossible, so
-kpoints failed unless it was 1,2,3,...
---
 irrep/readfiles.py | 71 ++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 40 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 74bd578..36a83a8 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -129,7 +129,6 @@ class ParserAbinit():
     def __init__(self, filename):
         #fWFK = FF(fname, "r")
         self.fWFK = FFR(filename)  # temporary
-        self.kpt_count = 0  # index of the next k-point to be read
 
     def parse_header(self, v=0):
         '''
@@ -300,6 +299,7 @@ class ParserAbinit():
             record_abinit(self.fWFK,"i4")
 
         # Set as attributes quantities that need to be retrieved by the rest of methods
+        self.nrec_header = 5 + npsp + (2 if usepaw == 1 else 0)
         self.nband = nband
         self.spinor = spinor
         self.npwarr = npwarr
@@ -324,46 +324,37 @@ class ParserAbinit():
 
         nspinor = 2 if self.spinor else 1
 
-        # We need to skip lines in fWFK until we reach the lines of ik
-        for i in range(self.kpt_count, ik+1):
-
-            if self.kpt_count < ik:
-                skip = True
-            else:
-                skip = False
-
-            # 1st record: npw, nspinor, nband
-            record = record_abinit(self.fWFK, "i4")  # [0]
-            npw, nspinor_loc, nband = record
-            assert npw == self.npwarr[ik], ("Different number of plane waves "
-                                            "in header and k-point's block. "
-                                            "Probably a bug in Abinit...")
-            assert nspinor_loc == nspinor, ("Different values of nspinor in "
-                                            "header and k-point's block. "
-                                            "Probably a bug in Abinit...")
-            assert nband == self.nband[ik], ("Different number of bands in "
-                                             "header and k-point's block. "
-                                             "Probably a bug in Abinit...")
-
-            # 2nd record: reciprocal lattice vectors in the expansion
-            kg = record_abinit(self.fWFK, "i4").reshape(npw, 3)
-
-            # 3rd record: energies and occupations
+        # Go to the first record of this k-point. Each k-point occupies 3
+        # records plus one per band
+        self.fWFK.goto_record(self.nrec_header + ik * 3
+                              + int(np.sum(self.nband[:ik])))
+
+        # 1st record: npw, nspinor, nband
+        record = record_abinit(self.fWFK, "i4")  # [0]
+        npw, nspinor_loc, nband = record
+        assert npw == self.npwarr[ik], ("Different number of plane waves "
+                                        "in header and k-point's block. "
+                                        "Probably a bug in Abinit...")
+        assert nspinor_loc == nspinor, ("Different values of nspinor in "
+                                        "header and k-point's block. "
+                                        "Probably a bug in Abinit...")
+        assert nband == self.nband[ik], ("Different number of bands in "
+                                         "header and k-point's block. "
+                                         "Probably a bug in Abinit...")
+
+        # 2nd record: reciprocal lattice vectors in the expansion
+        kg = record_abinit(self.fWFK, "i4").reshape(npw, 3)
+
+        # 3rd record: energies and occupations
+        record = record_abinit(self.fWFK, "f8")
+        eigen = record[:nband]
+        eigen *= Hartree_eV
+
+        # 4th record: coefficients of expansions in plane waves
+        CG = np.zeros((nband, npw * nspinor), dtype=complex)
+        for iband in range(nband):
             record = record_abinit(self.fWFK, "f8")
-            if not skip:
-                eigen = record[:nband]
-                eigen *= Hartree_eV
-
-            # 4th record: coefficients of expansions in plane waves
-            if skip:
-                record = record_abinit(self.fWFK, "f8")
-            else:
-                CG = np.zeros((nband, npw * nspinor), dtype=complex)
-                for iband in range(nband):
-                    record = record_abinit(self.fWFK, "f8")
-                    CG[iband] = record[0::2] + 1.0j * record[1::2]
-
-            self.kpt_count += 1
+            CG[iband] = record[0::2] + 1.0j * record[1::2]
 
         return CG, eigen, kg
 
-- 
2.43.0


From 289fba2effca1946686c8b2631fda43bf84183ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:15 +0000
Subject: [PATCH 07/36] fix: leave the caller's list of k-points unchanged

kplist was decremented in place, so a second BandStructure built from the same
array read the wrong k-points.
---
 irrep/bandstructure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index f88226f..d1d0c8c 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -304,8 +304,7 @@ class BandStructure:
         if kplist is None:
             kplist = range(NK)
         else:
-            kplist -= 1
-            kplist = np.array([k for k in kplist if k >= 0 and k < NK])
+            kplist = np.array([k - 1 for k in kplist if k >= 1 and k <= NK])
 
         # Parse wave functions at each k-point
         self.kpoints = []
-- 
2.43.0


From 61c7d3d27a14c98f8d615bc621171b6d479af479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:15 +0000
Subject: [PATCH 08/36] fix: number the atom types of a .win file in order of
 appearance

The numbering followed the iteration order of a set of strings, which depends on
the hash seed of the process.
---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 36a83a8..fb62ad5 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -874,7 +874,7 @@ class ParserW90:
                                 break
                         nameat.append(l1[0])
                         positions.append(l1[1:4])
-                    typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}
+                    typatdic = {n: i + 1 for i, n in enumerate(dict.fromkeys(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
                     if l[1][6:10] == "cart":  # from cartesian to direct coords
-- 
2.43.0


From 59fe5daf5a42e8f9726d58d026bd9ef809978b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 09/36] fix: do not take an interrupt or a failed allocation
 for missing data

Catch-all handlers turned a KeyboardInterrupt or MemoryError into a missing
Fermi energy, a missing band, or irreps of one k-point listed under another one,
and the run went on to report wrong results.
---
 irrep/bandstructure.py              | 4 ++--
 irrep/readfiles.py                  | 4 ++--
 irreptables/irreptables/__init__.py | 6 ++++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index d1d0c8c..777847b 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -261,7 +261,7 @@ class BandStructure:
         else:
             try:
                 self.efermi = float(EF)
-            except:
+            except ValueError:
                 raise RuntimeError("Invalid value for keyword EF. It must be "
                                    "a number or 'auto'")
 
@@ -361,7 +361,7 @@ class BandStructure:
             # Pick energy of IBend+1 band to calculate gaps
             try:
                 upper = Energy[IBend] - self.efermi
-            except BaseException:
+            except IndexError:
                 upper = np.nan
 
             # Preserve only bands in between IBstart and IBend
diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index fb62ad5..4e8edd6 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -421,7 +421,7 @@ class ParserVasp:
             next(fpos)) * np.array([next(fpos).split() for i in range(3)], dtype=float)
         try:
             nat = np.array(next(fpos).split(), dtype=int)
-        except BaseException:
+        except ValueError:
             nat = np.array(next(fpos).split(), dtype=int)
 
         typat = [i + 1 for i in range(len(nat)) for j in range(nat[i])]
@@ -592,7 +592,7 @@ class ParserEspresso:
 
         try:
             EF = float(self.bandstr.find("fermi_energy").text) * Hartree_eV
-        except:
+        except AttributeError:
             EF = None
 
         if spinpol:
diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 61743d8..146c98d 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -356,6 +356,8 @@ class IrrepTable:
                     # logger.debug(l)
                     try:
                         self.symmetries.append(SymopTable(l))
+                    except MemoryError:
+                        raise
                     except Exception as err:
                         logger.debug(err)
                         pass
@@ -371,9 +373,13 @@ class IrrepTable:
                 kp = KPoint(line=l)
                 msg = f"k-point successfully read:\n{kp.str()}"
                 log_message(msg, v, 2)
+            except MemoryError:
+                raise
             except Exception as err:
                 try:
                     self.irreps.append(Irrep(line=l, k_point=kp, v=v))
+                except MemoryError:
+                    raise
                 except Exception as err:
                     if len(l.split()) > 0:
                         msg = ("WARNING: could not parse k-point nor irrep from the "
-- 
2.43.0


From c7e4d078ed2ec2084d4191377bcc2870c83c5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 10/36] fix: energies of the spin-down channel of Quantum
 Espresso

The XML lists the energies of both channels one after the other; channel dw was
given those of channel up, and the gap above channel up was measured to the
lowest level of channel dw.
---
 irrep/readfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 4e8edd6..fe87d1a 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -688,6 +688,10 @@ class ParserEspresso:
         # Parse energy levels
         Energy = np.array(kptxml.find("eigenvalues").text.split(), dtype=float)
         Energy *= Hartree_eV
+        if spin_channel == "dw":  # listed after the energies of channel up
+            Energy = Energy[-NBin:]
+        else:
+            Energy = Energy[:NBin]
 
         # Open file with the wave functions
         wfcname="wfc{}{}".format({None:"","dw":"dw","up":"up"}[spin_channel], ik+1)
-- 
2.43.0


From bafe86a934049d9cc95f61dfa77155b9303b4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 11/36] fix: sign of translations read from a .sym file

The file holds -t (see str_sym), but translations were read with the same sign,
so what -writesym writes could not be read back for non-symmorphic groups.
---
 irrep/spacegroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 397b917..de83678 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1414,5 +1414,6 @@ def cart_to_crystal(rot_cart, trans_cart, lattice, alat):
     rot_crystal = np.array([(lat_inv.T @ rot @  lattice.T) for rot in rot_cart])
     assert np.allclose(rot_crystal, np.round(rot_crystal)), f"rotations are not integers in crystal coordinates : {rot_crystal}"
     rot_crystal = np.round(rot_crystal).astype(int)
-    trans_crystal = trans_cart @ lat_inv * alat * BOHR
+    # the operations of the file act on a point r as rR - t
+    trans_crystal = - trans_cart @ lat_inv * alat * BOHR
     return rot_crystal , trans_crystal 
\ No newline at end of file
-- 
2.43.0


From 058f4038183aa8ee8af8878e4c3570af501d366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 12/36] fix: hand -alat to the reader of -from_sym_file

Without it -from_sym_file was unusable with any code but Quantum Espresso, and
-alat changed the units of the written .sym file but not of the one read.
---
 irrep/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index e755bfe..6d29de6 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -378,7 +378,8 @@ def cli(
         degen_thresh=degenthresh,
         save_wf=save_wf,
         v=v,
-        from_sym_file=from_sym_file
+        from_sym_file=from_sym_file,
+        alat=alat
     )
 
     bandstr.spacegroup.show()
-- 
2.43.0


From a530165ae2089c762dd4ef024c4c4520b838d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 13/36] fix: list the last level of every k-point when irreps
 are not identified

Without -kpnames the placeholder labels were one short, so the table printed for
each k-point lost its last level, and a k-point with a single level crashed.
---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 0d6a2d7..91273e5 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -663,7 +663,7 @@ class Kpoint:
 
         self.onlytraces = irreptable is None
         if self.onlytraces:
-            irreps = ["None"] * (len(self.degeneracies) - 1)
+            irreps = ["None"] * len(self.degeneracies)
 
         else:
 
-- 
2.43.0


From 1b463da79fe06f2ae84132f7d12187c896d59b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 14/36] fix: separate by more than one symmetry

-isymsep with two symmetries added to the dictionary it was iterating over. Behind
that, the separated k-points kept the borders and energies of the full set of
bands, and eigenvectors of repeated eigenvalues were not orthogonal.
---
 irrep/cli.py    |  2 +-
 irrep/kpoint.py | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 6d29de6..cbdc83f 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -420,8 +420,8 @@ def cli(
     if isymsep is not None:
         json_data["separated by symmetry"]=True
         json_data["separating symmetries"]=isymsep
-        tmp_subbands = {}
         for isym in isymsep:
+            tmp_subbands = {}
             print("\n-------- SEPARATING BY SYMMETRY # {} --------".format(isym))
             for s_old, bs in subbands.items():
                 separated = bs.Separate(isym, degen_thresh=degenthresh, groupKramers=groupkramers, v=v)
diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 91273e5..8751264 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -20,6 +20,7 @@ from functools import lru_cache
 import numpy as np
 import numpy.linalg as la
 import copy
+from scipy.linalg import schur
 from .gvectors import symm_eigenvalues, symm_matrix
 from .utility import compstr, is_round, format_matrix, log_message
 
@@ -288,9 +289,14 @@ class Kpoint:
         # Sort energy levels
         sortE = np.argsort(E)
         other.Energy_mean = E[sortE]
+        other.Energy_raw = other.Energy_mean
         other.WF = WF[sortE]
         other.num_bands = len(E)
         inds = inds[sortE]
+        # Limits of the sets of states degenerate before the separation
+        other.borders = np.hstack((
+            [0], np.where(inds[1:] != inds[:-1])[0] + 1, [other.num_bands]
+        ))
 
         # Do not group by degeneracy of energy-levels for printing
         other.degeneracies = [1] * other.num_bands
@@ -499,11 +505,14 @@ class Kpoint:
         eigenvectors = []
         inds_states = []
         Eloc = []
-        for istate, num_states in  enumerate(self.degeneracies):
-            b1 = self.borders[istate]
-            b2 = self.borders[istate+1]
-            inds_states += [istate] * num_states  # index for set of states
-            W, V = la.eig(S[b1:b2, b1:b2])
+        # index of the set of states (row of self.char) starting at each border
+        istates = np.searchsorted(np.cumsum(self.degeneracies), self.borders[:-1], side="right")
+        for istate, b1, b2 in zip(istates, self.borders, self.borders[1:]):
+            inds_states += [istate] * (b2 - b1)  # index for set of states
+            # Schur form of a unitary matrix: orthonormal eigenvectors, even if
+            # eigenvalues are repeated
+            T, V = schur(S[b1:b2, b1:b2], output="complex")
+            W = T.diagonal()
             for w, v in zip(W, V.T):
                 eigenvalues.append(w)
                 Eloc.append(self.Energy_mean[istate])
-- 
2.43.0


From 037a3dafa1555e3a682736f4fec4e0b409590434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 15/36] fix: separation by symmetry without grouping Kramers
 pairs

copy_sub was called with arguments it does not have, so groupKramers=False always
ended in a TypeError.
---
 irrep/kpoint.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 8751264..97baf63 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -552,7 +552,7 @@ class Kpoint:
                     subspaces[w[b1:b2].mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
             else:
                 v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), degen_thresh=degen_thresh, inds_states=inds_states)
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         else:  # don't group Kramers pairs
             
@@ -561,18 +561,20 @@ class Kpoint:
             w = w[arg]
             v = v[:, arg]
             Eloc = Eloc[arg]
+            inds_states = inds_states[arg]
             borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]
 
             if len(borders) > 0:
                 for b1, b2 in zip(borders, np.roll(borders, -1)):
                     v1 = np.roll(v, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
                     subspaces[np.roll(w, -b1)[: (b2 - b1) % self.num_bands].mean()] = self.copy_sub(
-                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], degen_thresh=degen_thresh, WF=v1.T.dot(self.WF)
+                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], WF=v1.T.dot(self.WF),
+                        inds=np.roll(inds_states, -b1)[: (b2 - b1) % self.num_bands]
                     )
 
             else:
                 v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, degen_thresh=degen_thresh, WF=v1.T.dot(self.WF))
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         return subspaces
 
-- 
2.43.0


From d457a2b51784fefa95fa77033358844958fce1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 16/36] fix: do not use the indices of -symmetries as labels of
 k-points

json() takes labels of k-points; -isymsep together with -symmetries crashed or
labelled the k-points with numbers of symmetries.
---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index cbdc83f..1d7c6ab 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -438,7 +438,7 @@ def cli(
                     ),
                 )
                 sub.write_characters()
-                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(symmetries)})
+                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json()})
     else :
         json_data["separated by symmetry"]=False
         
-- 
2.43.0


From 03111fabdceab19550a0e43e730a40b8a55c0f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 17/36] fix: -ZAK and -WCC

Both always crashed: Kpoint has no attribute Energy, and the angle was taken of
the pair (eigenvalues, eigenvectors).
---
 irrep/bandstructure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 777847b..7d9c26f 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -761,13 +761,13 @@ class BandStructure:
         #        print (np.array([k.Energy[1:] for k in self.kpoints] ))
         #        print (np.min([k.Energy[1:] for k in self.kpoints],axis=0) )
         emin = np.hstack(
-            (np.min([k.Energy[1:nmax] for k in self.kpoints], axis=0), [np.inf])
+            (np.min([k.Energy_raw[1:nmax] for k in self.kpoints], axis=0), [np.inf])
         )
-        emax = np.max([k.Energy[:nmax] for k in self.kpoints], axis=0)
+        emax = np.max([k.Energy_raw[:nmax] for k in self.kpoints], axis=0)
         locgap = np.hstack(
             (
                 np.min(
-                    [k.Energy[1:nmax] - k.Energy[0 : nmax - 1] for k in self.kpoints],
+                    [k.Energy_raw[1:nmax] - k.Energy_raw[0 : nmax - 1] for k in self.kpoints],
                     axis=0,
                 ),
                 [np.inf],
@@ -793,7 +793,7 @@ class BandStructure:
             np.dot,
             [functools.reduce(np.dot, np.linalg.svd(O)[0:3:2]) for O in overlaps],
         )
-        return np.sort((np.angle(np.linalg.eig(wilson)) / (2 * np.pi)) % 1)
+        return np.sort((np.angle(np.linalg.eigvals(wilson)) / (2 * np.pi)) % 1)
 
     def write_plotfile(self, filename='bands-tognuplot.dat'):
         """
-- 
2.43.0


From 5f89c6275685d236cd398370cf3571e3a2ed707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 18/36] fix: Cartesian coordinates of a POSCAR with a scaling
 factor

VASP scales Cartesian positions like the lattice vectors; they were converted
without the factor, giving another crystal.
---
 irrep/readfiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index fe87d1a..bab6f2b 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -417,8 +417,8 @@ class ParserVasp:
         fpos = (l.strip() for l in open(self.fPOS))
         title = next(fpos)  # title
         del title
-        lattice = float(
-            next(fpos)) * np.array([next(fpos).split() for i in range(3)], dtype=float)
+        scale = float(next(fpos))
+        lattice = scale * np.array([next(fpos).split() for i in range(3)], dtype=float)
         try:
             nat = np.array(next(fpos).split(), dtype=int)
         except ValueError:
@@ -451,7 +451,7 @@ class ParserVasp:
                 "not all atomic positions were read : {0} of {1}".format(
                     i, sum(nat)))
         if cartesian:
-            positions = positions.dot(np.linalg.inv(lattice))
+            positions = scale * positions.dot(np.linalg.inv(lattice))
         return lattice, positions, typat
 
     def parse_header(self):
-- 
2.43.0


From d9bc6a8c4e600e666111ce4f3c8e51ddd147542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 19/36] fix: energies of plane waves in the Quantum Espresso
 interface

The reciprocal lattice was converted to atomic units with a factor 1/2 instead of
the Bohr radius, so plane-wave energies came out 11% too low and -Ecut kept more
plane waves than with the other codes (which could also split sets of equal energy
differently).
---
 irrep/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7d9c26f..cffecbc 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -26,7 +26,7 @@ from .readfiles import ParserAbinit, ParserVasp, ParserEspresso, ParserW90
 from .kpoint import Kpoint
 from .spacegroup import SpaceGroup
 from .gvectors import sortIG, calc_gvectors
-from .utility import log_message
+from .utility import log_message, BOHR
 
 
 class BandStructure:
@@ -340,7 +340,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
                 log_message(msg, v, 2)
                 WF, Energy, kg, kpt = parser.parse_kpoint(ik, NBin, spin_channel, v=v)
-                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice/2.0, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'wannier90':
                 kpt = kpred[ik]
-- 
2.43.0


From dce53b51a92ef81c1cd375227fffbe114053f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 20/36] fix: print Zak phases of all subspaces

exit() sat inside the loop, so -ZAK with -isymsep stopped after the first one.
---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 1d7c6ab..9447d56 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -457,7 +457,7 @@ def cli(
                         n=n + 1, z=z / np.pi, gap=gw, cent=gc, lg=lgw
                     )
                 )
-            exit()
+        exit()
 
     if wcc:
         for k in subbands:
-- 
2.43.0


From 89f58c524debe5980aa89737541329f6f3e7f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 21/36] fix: accept several symmetries in -isymsep

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 9447d56..8b87a03 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -353,7 +353,7 @@ def cli(
     if kpnames:
         kpnames = kpnames.split(",")
 
-    if isymsep or wcc or zak:
+    if isymsep is not None or wcc or zak:
         save_wf = True
     else:
         save_wf = False
-- 
2.43.0


From 207375c405580f6464b72decbb3702f1ccd01e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 22/36] fix: read the lattice of Abinit in angstroms

It stayed in Bohr, so the printed cell, the length of k-paths and the
translations of .sym files were off by the Bohr radius.
---
 irrep/bandstructure.py | 2 +-
 irrep/readfiles.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index cffecbc..8c95005 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -334,7 +334,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}: {kpt}'
                 log_message(msg, v, 2)
                 WF, Energy, kg = parser.parse_kpoint(ik)
-                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'espresso':
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index bab6f2b..2b5f8bc 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -200,7 +200,7 @@ class ParserAbinit():
          usepaw,
          nspinor,
          occopt) = np.array(record[0])[[0, 4, 8, 12, 13, 11, 14, 17, 10, 15]]
-        rprimd = record[1][7:16].reshape((3, 3))
+        rprimd = record[1][7:16].reshape((3, 3)) * BOHR  # in angstroms
         ecut = record[1][0] * Hartree_eV
         nshiftk_orig = record[2][1]
         nshiftk = record[2][2]
-- 
2.43.0


From 6cec7b730e81fd6e6382c6e31bcd1a0887e6d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:20 +0000
Subject: [PATCH 23/36] fix: report a failing write to standard output

The interpreter flushes what is left in the buffer when the script ends, and
drops an error of that flush, so the run ended with status 0.
---
 irrep/cli.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 8b87a03..ab9b85e 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -19,6 +19,8 @@
 Defines the command line interface to "irrep".
 """
 
+import sys
+
 import numpy as np
 
 import click
@@ -52,7 +54,11 @@ class LoadContextFromConfig(click.Command):
                 if param in config_data:
                     ctx.params[param] = config_data[param]
 
-        return super(LoadContextFromConfig, self).invoke(ctx)
+        try:
+            return super(LoadContextFromConfig, self).invoke(ctx)
+        finally:
+            # errors of the flush done by the interpreter at exit are lost
+            sys.stdout.flush()
 
 
 @click.version_option(version)
-- 
2.43.0


From 44d1af3edf050a394af6be4df133e7609a6ffbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 24/36] fix: read Abinit files of crystals with one atom

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 2b5f8bc..c1785da 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -240,7 +240,7 @@ class ParserAbinit():
                     ntypat=ntypat)
                )
         record = record_abinit(self.fWFK, fmt)[0]
-        typat = record[6]
+        typat = np.atleast_1d(record[6])  # scalar if natom = 1
         kpt = record[7]
         nband = record[1]
         istwfk = record[0]
-- 
2.43.0


From 92e334b43a76ac92ce122ceabb9352bdfed493c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 25/36] fix: reference lattice printed with the structure

---
 irrep/spacegroup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index de83678..fef4677 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -749,8 +749,7 @@ class SpaceGroup():
         print('')
 
         # Print cell vectors in DFT and reference cells
-        vecs_refUC = np.dot(self.Lattice, self.refUC).T
-        #vecs_refUC = np.dot(self.refUC, self.Lattice)
+        vecs_refUC = np.dot(self.refUC.T, self.Lattice)
         print('Cell vectors in angstroms:\n')
         print('{:^32}|{:^32}'.format('Vectors of DFT cell', 'Vectors of REF. cell'))
         for i in range(3):
-- 
2.43.0


From 29696df47ae8e21419a2b5934f4d8194ef80ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 26/36] fix: origin of the positions printed in the reference
 cell

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index fef4677..2aa4604 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -764,7 +764,7 @@ class SpaceGroup():
         # Print atomic positions
         print('Atomic positions in direct coordinates:\n')
         print('{:^} | {:^25} | {:^25}'.format('Atom type', 'Position in DFT cell', 'Position in REF cell'))
-        positions_refUC = self.positions.dot(np.linalg.inv(self.refUC.T))
+        positions_refUC = (self.positions - self.shiftUC).dot(np.linalg.inv(self.refUC.T))
         for itype, pos1, pos2 in zip(self.typat, self.positions, positions_refUC):
             s = '{:^9d}'.format(itype)
             s += ' | '
-- 
2.43.0


From 1839fe6b1ba9c3dfb43e3d9e840663b00df9a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:54 +0000
Subject: [PATCH 27/36] fix: fixed order of the subspaces of a separation

---
 irrep/bandstructure.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 8c95005..a97b21a 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -680,9 +680,9 @@ class BandStructure:
             )
             #            nv=len(allvalues)
             if len(borders) > 2:
-                allvalues = set(
-                    [allvalues[b1:b2].mean() for b1, b2 in zip(borders, borders[1:])]
-                ) # unrepeated Re parts of all eigenvalues
+                allvalues = [
+                    allvalues[b1:b2].mean() for b1, b2 in zip(borders, borders[1:])
+                ][::-1] # unrepeated Re parts of all eigenvalues
                 subspaces = {}
                 for v in allvalues:
                     other = copy.copy(self)
@@ -702,12 +702,12 @@ class BandStructure:
             borders = np.where(abs(allvalues - np.roll(allvalues, 1)) > 0.01)[0]
             nv = len(allvalues)
             if len(borders) > 0:
-                allvalues = set(
-                    [
-                        np.roll(allvalues, -b1)[: (b2 - b1) % nv].mean()
-                        for b1, b2 in zip(borders, np.roll(borders, -1))
-                    ]
-                )
+                allvalues = [
+                    np.roll(allvalues, -b1)[: (b2 - b1) % nv].mean()
+                    for b1, b2 in zip(borders, np.roll(borders, -1))
+                ]
+                # fixed order, whatever the numerical noise at the branch cut
+                allvalues.sort(key=lambda x: (np.angle(x) + 0.1) % (2 * np.pi))
                 log_message(f'Distinct values: {allvalues}', v, 1)
                 subspaces = {}
                 for v in allvalues:
-- 
2.43.0


From 04a686b999bd9c22d9d207d710e9657215520985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 28/36] fix: plot subspaces with different numbers of bands at
 different k-points

---
 irrep/bandstructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index a97b21a..3e885bf 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -810,7 +810,8 @@ class BandStructure:
         kpline = self.KPOINTSline()
 
         # Prepare energies at each k point
-        energies_expanded = np.full((self.num_bands, len(kpline)), np.inf)
+        num_bands = max(kp.num_bands for kp in self.kpoints) # may differ in subspaces
+        energies_expanded = np.full((num_bands, len(kpline)), np.inf)
         for ik, kp in enumerate(self.kpoints):
             count = 0
             for iset, deg in enumerate(kp.degeneracies):
@@ -821,7 +822,7 @@ class BandStructure:
         # Write energies of each band
         file = open(filename, 'w')
         file.write('column 1: k, column 2: energy in eV (w.r.t. Fermi level)')
-        for iband in range(self.num_bands):
+        for iband in range(num_bands):
             file.write('\n')  # blank line separating blocks of k points
             for k, energy in zip(kpline, energies_expanded[iband]):
                 s = '{:8.4f}    {:8.4f}\n'.format(k, energy)
-- 
2.43.0


From c16ebc13bbb4553d549e6e706b77ad156d5809db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 29/36] fix: keep states with complex eigenvalues without
 partner when Kramers pairs are grouped

---
 irrep/kpoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 97baf63..db2bbf2 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -549,10 +549,10 @@ class Kpoint:
             if len(borders) > 0:
                 for b1, b2 in zip(borders, borders[1:]):
                     v1 = v[:, b1:b2]
-                    subspaces[w[b1:b2].mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
+                    subspaces[w[b1:b2].real.mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
             else:
                 v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
+                subspaces[w.real.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         else:  # don't group Kramers pairs
             
-- 
2.43.0


From 7a084dd4edda3515c149767943521fc34d2ef7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:02 +0000
Subject: [PATCH 30/36] fix: same little group for equivalent k-points

---
 irrep/gvectors.py | 2 +-
 irrep/kpoint.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index f0626e2..767f291 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -281,7 +281,7 @@ def transformed_g(kpt, ig, RecLattice, A):
     B = np.linalg.inv(A).T
     kpt_ = B.dot(kpt)
     dkpt = np.array(np.round(kpt_ - kpt), dtype=int)
-    if not np.isclose(dkpt, kpt_ - kpt).all():
+    if not np.isclose(dkpt, kpt_ - kpt, rtol=0.0, atol=1e-5).all():
         raise NotSymmetryError(
             "The k-point {0} is transformed to non-equivalent point {1}  under transformation\n {2}".format(
                 kpt, kpt_, A
diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index db2bbf2..fd6629a 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -202,7 +202,7 @@ class Kpoint:
                 continue
             k_rotated = np.dot(np.linalg.inv(symop.rotation).T, self.k)
             dkpt = np.array(np.round(k_rotated - self.k), dtype=int)
-            if np.allclose(dkpt, k_rotated - self.k):
+            if np.allclose(dkpt, k_rotated - self.k, rtol=0.0, atol=1e-5):
                 self.little_group.append(symop)
 
         # Sort symmetries based on their indices
-- 
2.43.0


From 3fab1027d61ba7c055c701d2761a19df75175014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 31/36] fix: check that the wave-function files of Quantum
 Espresso belong to the data file

---
 irrep/readfiles.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index c1785da..efb54aa 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -701,22 +701,39 @@ class ParserEspresso:
             fWFC=FF("{}.save/{}.dat".format(self.prefix,wfcname.upper()),"r")
 
         rec = record_abinit(fWFC, "i4,3f8,i4,i4,f8")[0]
+        ik_file = rec[0]
         kpt = rec[1]  # cartesian coords of k-point
 
         rec = record_abinit(fWFC, "4i4")
         igwx = rec[1]
 
+        # Check that the file belongs to the calculation in the xml file
+        npw = int(kptxml.find("npw").text)
+        npol = 2 if self.spinor else 1
+        for name, found, expected in (("index of k-point", ik_file, ik + 1),
+                                      ("number of plane waves", igwx, npw),
+                                      ("number of spinor components", rec[2], npol),
+                                      ("number of bands", rec[3], NBin)):
+            if found != expected:
+                raise RuntimeError("{} of {} is {}, but {} according to "
+                                   "data-file-schema.xml"
+                                   .format(name, wfcname, found, expected))
+
         # Determine direct coords of k-point
         rec = record_abinit(fWFC, "(3,3)f8")
         B = np.array(rec)
+        lattice = self.parse_lattice()[0] / BOHR
+        if not np.allclose(B.dot(lattice.T) / (2 * np.pi), np.eye(3), atol=1e-5):
+            raise RuntimeError("The reciprocal lattice in {} does not match "
+                               "the lattice in data-file-schema.xml"
+                               .format(wfcname))
         kpt = kpt.dot(np.linalg.inv(B))
 
         rec = record_abinit(fWFC, "({},3)i4".format(igwx))
         kg = np.array(rec)
 
         # Parse coefficients of wave functions
-        npw = int(kptxml.find("npw").text)
-        npwtot = npw * (2 if self.spinor else 1)
+        npwtot = npw * npol
         msg = 'npwtot: {}, igwx: {}'.format(npwtot, igwx)
         log_message(msg, v, 2)
         WF = np.zeros((NBin, npwtot), dtype=complex)
-- 
2.43.0


From cc01b5ffebc9e687e0cfd4a5db643fbf33dfc589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 32/36] fix: end the search for plane waves when WAVECAR states
 a wrong number of them

---
 irrep/gvectors.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 767f291..2dff2c3 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -99,8 +99,13 @@ def calc_gvectors(
     igall = []
     Eg = []
     memory = np.full(10, True)
+    # no plane wave within the cutoff is farther than this number of cycles
+    a_norm = la.norm(la.inv(B), axis=0)
+    Nmax = np.sum(np.abs(K) + np.sqrt(Ecut * twomhbar2) * a_norm) + 1
     for N in range(nplanemax):
         flag = True
+        if nplane < np.inf and not N <= Nmax:  # wrong number of plane waves
+            break
         if N % 10 == 0:
             msg = f'Cycle {N:>3d}: number of plane waves = {len(igall):>10d}'
             log_message(msg, v, 2)
-- 
2.43.0


From 2a9f08baf7793042c88a191d84ae740b6d08e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 33/36] fix: compare the number of plane waves in WAVECAR with
 the complete set

---
 irrep/gvectors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 2dff2c3..7afb044 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -111,10 +111,12 @@ def calc_gvectors(
             log_message(msg, v, 2)
         if len(igall) >= nplane / 2:    # Only enters if vasp
             if spinor:
-                break
+                if memory[-1]:  # the last cycle did not find more
+                    break
             else:      # Sure that not spinors?
                 if len(igall) >= nplane: # spinor=F, all plane waves found
-                    break
+                    if memory[-1]:
+                        break
                 elif np.all(memory): # probably spinor wrong set as spinor=F
                     raise RuntimeError(
                           "calc_gvectors is stuck "
-- 
2.43.0


From 3e5c3d3af2ddf53affbbf82f5e90b36421ae1698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 34/36] fix: order of plane waves in WAVECAR at k-points far
 from the origin

With all plane waves on one side of the origin, along some direction, the
indices modulo the extent of the box are not in the order of VASP's loops.
---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 7afb044..5f46893 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -155,7 +155,7 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0) + 1
+    ng = 2 * abs(igall).max(axis=0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From 4a7f763303b3c7f2aa61214e57433cd5186b1065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 35/36] fix: warning about eigenvalues that are not unitary in
 Separate

---
 irrep/kpoint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index fd6629a..a5bc6b0 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -513,14 +513,13 @@ class Kpoint:
             # eigenvalues are repeated
             T, V = schur(S[b1:b2, b1:b2], output="complex")
             W = T.diagonal()
-            for w, v in zip(W, V.T):
+            for w, vec in zip(W, V.T):
                 eigenvalues.append(w)
                 Eloc.append(self.Energy_mean[istate])
                 eigenvectors.append(
-                    np.hstack((np.zeros(b1), v, np.zeros(self.num_bands - b2)))
+                    np.hstack((np.zeros(b1), vec, np.zeros(self.num_bands - b2)))
                 )
         w = np.array(eigenvalues)
-        v = np.array(eigenvectors).T # each col an eigenvector
         Eloc = np.array(Eloc)
         inds_states = np.array(inds_states)
 
@@ -530,6 +529,7 @@ class Kpoint:
         if np.abs((np.abs(w) - 1.0)).max() > 3e-1:
             raise RuntimeError(" some eigenvalues are not unitary :{0} ".format(w))
         w /= np.abs(w)
+        v = np.array(eigenvectors).T # each col an eigenvector
 
         subspaces = {}
 
-- 
2.43.0


From 65bae1437346d0ceae3e0fd8a45c33e5799c4d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 36/36] fix: thirds and sixths of the tables' translations are
 exact, so that right cells that are strongly sheared are not rejected

---
 irreptables/irreptables/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 146c98d..113e732 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -52,6 +52,10 @@ class SymopTable:
         numbers = line.split()
         self.R = np.array(numbers[:9], dtype=int).reshape(3, 3)
         self.t = np.array(numbers[9:12], dtype=float)
+        # thirds and sixths are written with 5 digits only; the error would be
+        # multiplied in strongly sheared cells
+        t_exact = np.round(self.t * 6) / 6
+        self.t = np.where(np.abs(self.t - t_exact) < 1e-5, t_exact, self.t)
         if len(numbers) > 12:
             self.S = (
                 np.array(numbers[12:16], dtype=float)
-- 
2.43.0


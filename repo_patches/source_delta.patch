From 1f34dad8de6f33d8b7d9a09293b13edc2c12aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 01/57] fix: inner moments of arrays with a point at the origin

The angles were already restricted to the points away from the origin and
were then indexed a second time (or combined with the unrestricted masses),
which raised or mispaired masses and positions.
---
 newt/pg2Multi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 76019c7..173ad42 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -34,7 +34,8 @@ def qmoment(l, m, massArray):
     if l == 0:
         qlm = massArray[:, 0]/np.sqrt(4*np.pi)
     else:
-        qlm = massArray[:, 0]*r**l*np.conj(sp.sph_harm(m, l, phi, theta))
+        qlm = massArray[rids, 0]*r[rids]**l
+        qlm = qlm*np.conj(sp.sph_harm(m, l, phi, theta))
     qlm = np.sum(qlm)
     return qlm
 
@@ -135,7 +136,7 @@ def qmoments(l, massArray):
     for n in range(1, l+1):
         rl = r**n
         for m in range(n+1):
-            qlm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            qlm = np.conj(sp.sph_harm(m, n, phi, theta))
             qlm *= massArray[rids, 0]*rl[rids]
             qlms[n, l+m] = np.sum(qlm)
 
-- 
2.43.0


From f1dfa5504171827d09b160cc719aa5e203e38e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 02/57] fix: inner Yukawa moments of every degree and of points
 at the origin

The whole-table routine used the Bessel function of the maximum degree for
every degree, and both routines failed with a point at the origin.
---
 newt/pg2Multi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 173ad42..9c007f3 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -100,7 +100,8 @@ def imoment(l, m, lmbd, massArray):
     if l == 0:
         ilm = massArray[:, 0]*il/np.sqrt(4*np.pi)
     else:
-        ilm = massArray[:, 0]*il*np.conj(sp.sph_harm(m, l, phi, theta))
+        ilm = massArray[rids, 0]*il[rids]
+        ilm = ilm*np.conj(sp.sph_harm(m, l, phi, theta))
     ilm = np.sum(ilm)
     return ilm
 
@@ -223,9 +224,9 @@ def imoments(l, lmbd, massArray):
     ilms[0, l] = np.sum(ilm)
 
     for n in range(1, l+1):
-        il = sp.spherical_in(l, r/lmbd)
+        il = sp.spherical_in(n, r/lmbd)
         for m in range(n+1):
-            ilm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            ilm = np.conj(sp.sph_harm(m, n, phi, theta))
             ilm *= massArray[rids, 0]*il[rids]
             ilms[n, l+m] = np.sum(ilm)
 
-- 
2.43.0


From 8a3b480abe623b9ed20ede6f38f9ef00dbbc20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 03/57] fix: Wigner matrices of maximum degree 0

The degree-0 shortcut returned a bare float where the callers index a list
of matrices, so rotating or translating monopole-only tables raised.
---
 newt/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/rotations.py b/newt/rotations.py
index e5ead66..7ffd77a 100644
--- a/newt/rotations.py
+++ b/newt/rotations.py
@@ -30,7 +30,7 @@ def rotate_H_recurs(p, beta, Hn_prev=None):
     https://arxiv.org/pdf/1403.7698v1.pdf
     """
     if p == 0:
-        return 1.0
+        return [np.ones([1, 1])]
     else:
         H = []
 
-- 
2.43.0


From 9bedb0974b9bccafb2a268bbf9855225dc411263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 04/57] fix: force basis of maximum degree 0 at the origin

---
 newt/multipoleLib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index ab82681..1192071 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -22,7 +22,7 @@ def force_basis(L, x, y, z):
     bY = np.zeros([L+1, 2*L+1], dtype='complex')
     bZ = np.zeros([L+1, 2*L+1], dtype='complex')
 
-    if (x == 0) and (y == 0) and (z == 0):
+    if (L > 0) and (x == 0) and (y == 0) and (z == 0):
         bZ[1, L] = 1
         bX[1, L+1] = -1/2
         bY[1, L+1] = 1j/2
-- 
2.43.0


From c8d845ff23f392cf8f1bc815ed7b6d29d47e945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 05/57] fix: inner-outer torque for a displacement along +z

---
 newt/multipoleLib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index 1192071..c05d7e3 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -279,7 +279,7 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
                 q2Q = True
             else:
                 sms = trr.transl_newt_z_SS(minL, r)
-            qnew = trr.apply_trans_mat_right(qnew, sms)
+            qnew = trr.apply_trans_mat_right(qnew, sms, q2Q)
             qnew = rot.rotate_qlm_Ds_right(qnew, DsR)
         else:
             phi = np.arctan2(rvec[1], rvec[0])
-- 
2.43.0


From e9642a6e26ebfe65c100604edfee665e06633a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 06/57] fix: outer-outer torque for a displacement off the z
 axis

---
 newt/multipoleLib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index c05d7e3..d5f6f6d 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -291,6 +291,7 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
                 Ds2 = rot.wignerDl(minL, phi, -theta, phi)
             else:
                 sms = trr.transl_newt_z_SS(minL, r)
+                Ds = rot.wignerDl(minL, phi, -theta, phi)
                 Ds2 = Ds
             # Translate and rotate in opposite order than applied to q
             qnew = rot.rotate_qlm_Ds_right(qnew, Ds2, True)
-- 
2.43.0


From 28464f4343ab2f9b7ce96a3de928eba3a0cbc948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 07/57] fix: torque of moments of unequal degree

---
 newt/multipoleLib.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index d5f6f6d..f0aee65 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -188,7 +188,9 @@ def torque_lm(qlm, Qlm, cnst=BIG_G):
     ls = np.arange(minL+1)
     lfac = 1/(2*ls+1)
     ms = np.arange(-minL, minL+1)
-    nlm = -4*np.pi*cnst*1j*np.outer(lfac, ms)*qlm*Qlm
+    qnew = embed_qlm(qlm, minL)
+    Qnew = embed_qlm(Qlm, minL)
+    nlm = -4*np.pi*cnst*1j*np.outer(lfac, ms)*qnew*Qnew
 
     nm = np.sum(nlm, 0)
     nc = nm[minL:] + nm[minL::-1]
@@ -245,8 +247,8 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
         DsR = rot.wignerDl(minL, alpha, beta, gamma)
     else:
         DsR = rot.wignerDl(minL, -alpha, beta, -gamma)
-    qnew = np.copy(qlm)
-    Qnew = np.copy(Qlm)
+    qnew = embed_qlm(qlm, minL)
+    Qnew = embed_qlm(Qlm, minL)
     r = np.sqrt(rvec[0]**2 + rvec[1]**2 + rvec[2]**2)
     if trans_type == 'inner-inner':
         Qnew *= np.outer(lfac, ms)
-- 
2.43.0


From e2838a75339f6092c92ac69e60e717996130adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 08/57] fix: q20 of the cone above the xy-plane

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 3103f95..2d79a0d 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -260,7 +260,7 @@ def cone2(LMax, rho, h, r1, r2):
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
     qlm[1, L] = fac*h**2*(r1**2 + 2*r1*r2 + 3*r2**2)/(8*np.sqrt(3))
     q20 = 2*h**2*(r1**2 + 3*r1*r2 + 6*r2**2)
-    q20 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + r1*r2**3 + r2**4)
+    q20 -= 3*(r1**4 + r1**3*r2 + r1**2*r2**2 + r1*r2**3 + r2**4)
     qlm[2, L] = fac*h*q20/(24*np.sqrt(5))
     q3 = 2*h**2*(r1**2 + 4*r1*r2 + 10*r2**2)
     q3 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + 4*r1*r2**3 + 5*r2**4)
-- 
2.43.0


From 9bafd74ef8aed5597d44ed0281091d502f6d20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 09/57] fix: q50 of the centered cone

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 2d79a0d..1f55051 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -210,7 +210,7 @@ def cone(LMax, rho, h, r1, r2):
     # q5 += 15*(5*r1**2*r2**4 + 6*r1*r2**5 + 7*r2**6)
     # qlm[5, L] = fac*h**2*q5*np.sqrt(11)/2688
     q5 = h**4 - 4*h**2*(3*r1**2 + r1*r2 + 3*r2**2)
-    q5 += 5*(3*r1**4 + 2*r1**2*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
+    q5 += 5*(3*r1**4 + 2*r1**3*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
     qlm[5, L] = fac*q5*h**2*(r1**2 - r2**2)*np.sqrt(11)/896
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
-- 
2.43.0


From 3869a423f19ff992008f05e50d4e588ffa8b04fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 10/57] fix: q44 of the trapezoid

---
 newt/qlmACH.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 1f55051..4a5c78a 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -439,7 +439,8 @@ def trapezoid(LMax, rho, t, w1, w2, h):
     qlm[4, L+2] = q42
     q44 = 24*delw**3*w**2*h**2 + 3*delw**4*w**4
     q44 -= delw*(256*h**4 - 480*h**2*w**2)
-    q44 -= delw**2*w**2*(192*h**2-40*w**2) + 16*(48*h**4-40*h**2*w**2+3*w**4)
+    q44 -= delw**2*w**2*(192*h**2-40*w**2)
+    q44 += 16*(48*h**4-40*h**2*w**2+3*w**4)
     q44 *= q00*np.sqrt(7/10)/2048
     qlm[4, L+4] = q44
     q51 = 3*delw**5*w**4 - 42*delw**4*w**4
-- 
2.43.0


From 9c236f108e614d3a2a278a219bc73c98e532c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 11/57] fix: q22 and q44 of the cylinder hole

---
 newt/qlmACH.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 4a5c78a..93a1029 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -666,13 +666,13 @@ def cylhole(LMax, rho, r, R):
     Fc4 = sp.hyp2f1(-.5, 2.5, 4, x)
     qlm[0, L] = fac*r*Fc2
     qlm[2, L] = -fac*r*np.sqrt(5)/6*((r**2-2*R**2)*Fc2 + r**2*Fc3)
-    qlm[2, L+2] = fac*r*np.sqrt(15/2)*Fc2
+    qlm[2, L+2] = fac*r**3*np.sqrt(5/6)/2*(Fc3 - Fc2)
     q40 = (9*r**5-40*r**3*R**2+24*r*R**4)*Fc2 + (13*r**5-32*r**3*R**2)*Fc3
     q40 += 16*r**5*Fc4
     qlm[4, L] = fac/40*q40
     q42 = (6*r**2-20*R**2)*Fc2 + 2*(r**2+10*R**2)*Fc3 - 13*r**2*Fc4
     qlm[4, L+2] = fac*r**3*q42/(8*np.sqrt(10))
-    qlm[4, L+4] = 3*fac*r*np.sqrt(35/2)*Fc2/2
+    qlm[4, L+4] = 3*fac*r**5*np.sqrt(7/10)/8*(Fc2 - 3*Fc3 + 2*Fc4)
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
     ms = np.arange(-L, L+1)
-- 
2.43.0


From 3293485c958880aa2ff6c7cf37d518a5a641268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 12/57] fix: azimuth sense of the outer moments of an annulus

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index bc18a14..db184d0 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -152,7 +152,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
 
     # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
     ms = np.arange(-L, L+1)
-    Qlmb *= np.exp(-1j*ms*phic)
+    Qlmb *= np.exp(1j*ms*phic)
     mfac = (-1)**(np.abs(ms))
     Qlmb += np.conj(np.fliplr(Qlmb))*mfac
     Qlmb[:, L] /= 2
-- 
2.43.0


From 96ff7909d79c2a963334b65dba8c96cd04e99ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 13/57] fix: Q20 of the outer annulus

---
 newt/bigQlm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index db184d0..6728ada 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -105,8 +105,8 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Qlmb[1, L] = sH*dens*np.sqrt(3/np.pi)*phih*Q10
     Q11 = np.log((r1+d1)/(r0+d0))
     Qlmb[1, L+1] = -dens*H*np.sqrt(3/(2*np.pi))*Q11*np.sin(phih)
-    Q22 = 1/d1 - 1/d0
-    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q22
+    Q20 = H*(1/d1 - 1/d0)
+    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q20
     Q21 = r1/d1 - r0/d0 + np.log((r1*(r0+d0))/(r0*(r1+d1)))
     Qlmb[2, L+1] = -sH*dens*np.sqrt(5/(6*np.pi))*Q21*np.sin(phih)
     Q22 = H*(1/d0-1/d1) - 2*np.log((r0*(H+d1))/(r1*(H+d0)))
-- 
2.43.0


From 35aff8f361fed9c27db2bad511b2062750344f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 14/57] fix: Q53 of the outer annulus

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index 6728ada..fdef32b 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -141,7 +141,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Q52 = 5/r1**3 + (4*H**4+14*H**2*r1**2-5*r1**4)/d1**7
     Q52 -= 5/r0**3 + (4*H**4+14*H**2*r0**2-5*r0**4)/d0**7
     Qlmb[5, L+2] = sH*dens*np.sqrt(11/(210*np.pi))/12*Q52*np.sin(2*phih)/2
-    Q53 = r1**5*(7*H**2+r1**2)/d1**7 - r0**5*(7*H**2+r0**2)/d0**7
+    Q53 = r1**5*(7*H**2+2*r1**2)/d1**7 - r0**5*(7*H**2+2*r0**2)/d0**7
     Qlmb[5, L+3] = dens*np.sqrt(11/(35*np.pi))/(16*H**3)*Q53*np.sin(3*phih)/3
     Q54 = 35/r0**3 - (8*H**4+28*H**2*r0**2+35*r0**4)/d0**7
     Q54 -= 35/r1**3 - (8*H**4+28*H**2*r1**2+35*r1**4)/d1**7
-- 
2.43.0


From 977ee9b1ecc56e4a6a8b88e8654d8244062da3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 15/57] fix: Clebsch-Gordan coefficients of numpy integers with
 negative M

---
 newt/clebschGordan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/clebschGordan.py b/newt/clebschGordan.py
index f2793cf..7d3733f 100644
--- a/newt/clebschGordan.py
+++ b/newt/clebschGordan.py
@@ -50,7 +50,7 @@ def cgCoeff(j1, j2, m1, m2, J, M):
     delta = (M == (m1 + m2))
     # If we picked a negative M, then use symmetry property
     if M < 0:
-        delta *= (-1)**(J-j1-j2)
+        delta *= (-1)**(j1+j2-J)
         M = -M
         m1 = -m1
         m2 = -m2
@@ -119,7 +119,7 @@ def cgCoeff2(j1, j2, m1, m2, J, M):
     delta = (M == (m1 + m2))
     # If we picked a negative M, then use symmetry property
     if M < 0:
-        delta *= (-1)**(J-j1-j2)
+        delta *= (-1)**(j1+j2-J)
         M = -M
         m1 = -m1
         m2 = -m2
-- 
2.43.0


From 9b264b8661b132ab6ed9d68703e9b5599ef17109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 16/57] fix: translating moments by zero returned the argument
 itself

---
 newt/translations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/translations.py b/newt/translations.py
index c943bbe..c5b8874 100644
--- a/newt/translations.py
+++ b/newt/translations.py
@@ -34,7 +34,7 @@ def translate_qlm(qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return qlm
+        return np.copy(qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of qlm for now
@@ -95,7 +95,7 @@ def translate_Qlmb(Qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return Qlm
+        return np.copy(Qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of Qlm for now
-- 
2.43.0


From 6a2697c3d49bbb9eed999e824779443e9fceeecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 17/57] fix: refuse impossible dimensions of mass-based solids

---
 newt/qlm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/qlm.py b/newt/qlm.py
index 3472213..ef560b3 100644
--- a/newt/qlm.py
+++ b/newt/qlm.py
@@ -29,6 +29,8 @@ def sphere(L, mass, R):
     qlm : ndarray, complex
         (L+1)x(2L+1) array of complex moment values
     """
+    if R < 0:
+        raise ValueError('Unphysical parameter arguments')
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
     qlm[0, L] = mass/np.sqrt((4*np.pi))
     return qlm
@@ -105,7 +107,7 @@ def annulus(L, mass, H, Ri, Ro, phic, phih):
     """
     factor = mass*np.sqrt(1/(4.*np.pi))
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (Ro < Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):
+    if (H <= 0) or (Ro <= Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):
         raise ValueError('Unphysical parameter arguments')
     rfac = Ro**2 - Ri**2
     for l in range(L+1):
@@ -462,7 +464,7 @@ def ngon_prism(L, mass, H, a, phic, N):
     """
     factor = mass*np.sqrt(1/(4.*np.pi))
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (a <= 0) or (N <= 0):
+    if (H <= 0) or (a <= 0) or (N < 3):
         raise ValueError('Unphysical parameter arguments')
     tanN = np.tan(np.pi/N)
     for l in range(L+1):
-- 
2.43.0


From eebf7a5954d756bbcbd6fd450f9cc8545bda818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 18/57] fix: refuse impossible dimensions of density-based
 solids

---
 newt/qlmACH.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 93a1029..c4bbf31 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -98,7 +98,7 @@ def annulus(LMax, rho, H, Ri, Ro, phic, phih):
     dr = Ro-Ri
     r = (Ro+Ri)/2
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (Ro <= Ri) or (Ro <= 0) or (H <= 0) or (phih > np.pi) or (phih <= 0):
+    if (Ro <= Ri) or (Ri < 0) or (H <= 0) or (phih > np.pi) or (phih <= 0):
         raise ValueError('Unphysical parameter arguments')
     eiphi = np.exp(-1j*phic)
     sdphih = np.sin(dphi/2)
@@ -176,7 +176,7 @@ def cone(LMax, rho, h, r1, r2):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h <= 0) or ((r1 == 0) and (r2 == 0)):
+    if (h <= 0) or (r1 < 0) or (r2 < 0) or ((r1 == 0) and (r2 == 0)):
         raise ValueError('Unphysical parameter arguments')
     fac = rho*np.sqrt(np.pi)
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
@@ -254,7 +254,7 @@ def cone2(LMax, rho, h, r1, r2):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h <= 0) or ((r1 == 0) and (r2 == 0)):
+    if (h <= 0) or (r1 < 0) or (r2 < 0) or ((r1 == 0) and (r2 == 0)):
         raise ValueError('Unphysical parameter arguments')
     fac = rho*np.sqrt(np.pi)
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
@@ -407,7 +407,7 @@ def trapezoid(LMax, rho, t, w1, w2, h):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h <= 0) or (t <= 0) or (w1 < 0) or (w2 < 0):
+    if (h <= 0) or (t <= 0) or (w1 < 0) or (w2 < 0) or (w1+w2 == 0):
         raise ValueError('Unphysical parameter arguments')
     w = (w1+w2)/2
     delw = (w1-w2)/w
@@ -783,7 +783,7 @@ def platehole(LMax, rho, t, r, theta):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (r <= 0) or (t <= 0) or (abs(theta) > np.pi/2):
+    if (r <= 0) or (t <= 0) or (abs(theta) >= np.pi/2):
         raise ValueError('Unphysical parameter arguments')
     s = np.tan(theta)
     q00 = rho*t*r**2*np.sqrt(np.pi*(1+s**2))/2
-- 
2.43.0


From 5f9e2b2e6565609d21fb0d135b481ebe50bdb4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 19/57] fix: refuse impossible dimensions of outer solids

---
 newt/bigQlm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index fdef32b..613b3c9 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -34,6 +34,8 @@ def sphere(LMax, dens, R, x, y, z):
     Qlmb : ndarray
         (LMax+1)x(2LMax+1) complex array of outer moments
     """
+    if R < 0:
+        raise ValueError('Unphysical parameter arguments')
     M = dens*(4*np.pi*R**3)/3
     Qlmsb = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     d = np.sqrt(x**2 + y**2 + z**2)
@@ -93,7 +95,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     else:
         L = LMax
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H == 0) or (r1 < r0) or (r1 < 0) or (r0 < 0) or (phih <= 0) or (phih > np.pi):
+    if (H == 0) or (r1 <= r0) or (r0 <= 0) or (phih <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     d1 = np.sqrt(H**2 + r1**2)
     d0 = np.sqrt(H**2 + r0**2)
-- 
2.43.0


From 228ccc8ffe4bafa26125c5235ea10742a12c274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 20/57] fix: refuse impossible dimensions of numerically
 integrated solids

---
 newt/bigQlmNum.py | 6 +++---
 newt/qlmNum.py    | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/newt/bigQlmNum.py b/newt/bigQlmNum.py
index 976ef52..e497748 100644
--- a/newt/bigQlmNum.py
+++ b/newt/bigQlmNum.py
@@ -63,7 +63,7 @@ def annulus(L, dens, h1, h2, IR, OR, phih):
         (LMax+1)x(2LMax+1) complex array of outer moments
     """
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h1 > h2) or (OR < IR) or (phih <= 0) or (OR <= 0) or (phih > np.pi):
+    if (h1 >= h2) or (OR <= IR) or (phih <= 0) or (IR < 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     # Make sure this solid doesn't reach the origin
     if (h1 <= 0 <= h2) and (IR <= 0):
@@ -117,7 +117,7 @@ def outer_cone(L, dens, H, IR, OR, phih):
         (LMax+1)x(2LMax+1) complex array of outer moments
     """
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (OR < IR) or (phih <= 0) or (OR <= 0) or (phih > np.pi):
+    if (H <= 0) or (OR <= IR) or (phih <= 0) or (IR < 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
 
     def cone_z(theta, r):
@@ -175,7 +175,7 @@ def trapezoid(L, dens, h1, h2, IR, OR, phih):
         (LMax+1)x(2LMax+1) complex array of outer moments
     """
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h1 > h2) or (OR < IR) or (phih <= 0) or (OR <= 0):
+    if (h1 >= h2) or (OR <= IR) or (phih <= 0) or (IR < 0):
         raise ValueError('Unphysical parameter arguments')
     # Make sure this solid doesn't reach the origin
     if ((h1 <= 0 <= h2) and (IR <= 0)) or (phih >= np.pi/2):
diff --git a/newt/qlmNum.py b/newt/qlmNum.py
index 024342b..5fdad36 100644
--- a/newt/qlmNum.py
+++ b/newt/qlmNum.py
@@ -81,7 +81,7 @@ def cyl_mom(L, dens, phih, IR, OR, h1, h2):
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h1 > h2) or (OR < IR) or (phih == 0) or (OR <= 0):
+    if (h1 >= h2) or (OR <= IR) or (IR < 0) or (phih <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     for l in range(L+1):
         for m in range(l+1):
@@ -135,7 +135,7 @@ def cone_mom(L, dens, phih, IR, OR, H):
         """Boundary integral for z coordinate of cone"""
         return H*(OR-r)/(OR-IR)
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (OR < IR) or (phih == 0) or (OR <= 0):
+    if (H <= 0) or (OR <= IR) or (IR < 0) or (phih <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     for l in range(L+1):
         for m in range(l+1):
@@ -188,7 +188,7 @@ def trap_mom(L, dens, phih, IR, OR, h1, h2):
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h1 > h2) or (OR < IR) or (phih <= 0) or (OR <= 0):
+    if (h1 >= h2) or (OR <= IR) or (phih <= 0) or (IR < 0):
         raise ValueError('Unphysical parameter arguments')
     # Make sure the angle makes sense
     if (phih >= np.pi/2):
@@ -306,7 +306,7 @@ def platehole(L, dens, t, r, theta):
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (r <= 0) or (theta >= np.pi/2) or (t <= 0):
+    if (r <= 0) or (abs(theta) >= np.pi/2) or (t <= 0):
         raise ValueError('Unphysical parameter arguments')
     tanth = np.tan(theta)
     h = t/np.cos(theta)
-- 
2.43.0


From 0b0fc7441340c7e57583df062d85cfccf0dd222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 21/57] fix: programs adding a part because a later line
 mentions add

---
 newt/read_multiFor.py | 99 ++++++++++---------------------------------
 1 file changed, 22 insertions(+), 77 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 31c8be9..d74852e 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -159,13 +159,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.annulus(LMax, mass, H, Ri, Ro, phic, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'sphere':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 r = line2[0]
@@ -174,13 +169,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.sphere(LMax, mass, r)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'cone':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 LR, UR, H = line2
@@ -190,13 +180,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'triangle':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 d, y1, y2, t = line2
@@ -205,13 +190,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tri_prism(LMax, mass, t, d, y1, y2)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'trapezoid':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 w1, w2, h, t = line2
@@ -236,13 +216,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'partcylinder':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 r, d, h = line2
@@ -254,13 +229,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk -= qlm.tri_iso_prism2(LMax, massTri, h, r, 0, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'tetrahedron':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 x, y, z = line2
@@ -269,13 +239,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tetrahedron(LMax, mass, x, y, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'platehole':
                 line2 = [float(val) for val in lines[2+k].split(',')]
                 r, t, theta = line2
@@ -287,13 +252,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 # qlmWrk = rot.rotate_qlm(qlmWrk, 0, theta, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'cylhole':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 r, R = line2
@@ -302,13 +262,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = rot.rotate_qlm(qlmWrk, np.pi/2, 0, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'pyramid':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 x, y, z = line2
@@ -317,13 +272,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.pyramid(LMax, mass, x/2, y/2, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             elif shape == 'rectangle':
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 x, y, z = line2
@@ -332,13 +282,8 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.rect_prism(LMax, mass, z, x, y, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
-                    k += 1
-                    print('added ', shape)
-                    qlmTot += qlmWrk
-                else:
-                    print('translated ', shape)
-                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
+                print('translated ', shape)
+                qlmWrk = trs.translate_qlm(qlmWrk, pos)
             else:
                 print(shape, ' does not have a known set of moments')
                 for n in range(nlines-k):
-- 
2.43.0


From e946cd359377af1227a24107316ae5b2ba25e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 22/57] fix: commands taken from part names and comments of
 MULTIN programs

---
 newt/read_multiFor.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index d74852e..33f943d 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -136,15 +136,18 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     nsteps = 25
     # Assume units are centimeters unless told otherwise
     fac = 1e-2
+    # Get rid of stuff after a comment
+    lines = [line.split('%')[0] for line in lines]
     nlines = len(lines[1:])
+    # No shape has been created yet
+    shape = 'Working'
     qlmTot = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     qlmWrk = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     k = 0
     while k < nlines:
-        line = lines[1+k]
-        # Get rid of stuff after a comment
-        line = line.split('%')[0]
-        if 'create' in line:
+        # A command is the first thing on its line
+        line = lines[1+k].strip()
+        if line.startswith('create'):
             print(line)
             shape = line.split('create')[1].split()[0]
             if shape == 'cylinder':
@@ -292,29 +295,29 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                         k += 1
                     else:
                         break
-        elif 'rotate' in line:
+        elif line.startswith('rotate'):
             dphi = np.array(line.split('rotate')[1].split(','), dtype=float)
             # Convert to radians
             dphi *= np.pi/180
             print('rotated ', shape)
             qlmWrk = rot.rotate_qlm(qlmWrk, dphi[0], dphi[1], dphi[2])
-        elif 'translate' in line:
+        elif line.startswith('translate'):
             print('translated ', shape)
             dr = np.array(line.split('translate')[1].split(','), dtype=float)
             dr *= fac
             qlmWrk = trs.translate_qlm(qlmWrk, dr)
-        elif 'add' in line:
+        elif line.startswith('add'):
             print('added ', shape)
             qlmTot += qlmWrk
-        elif 'cmin' in line:
+        elif line.startswith('cmin'):
             print('parameters in centimeters')
             fac = 1e-2
-        elif 'inchin' in line:
+        elif line.startswith('inchin'):
             print('parameters in inches')
             fac = 25.4e-3
-        elif 'nsteps' in line:
+        elif line.startswith('nsteps'):
             nsteps = line.split()[-1]
-        elif 'load' in line:
+        elif line.startswith('load'):
             fname = line.split('load ')[1]
             fname = fname.strip()
             print(fname)
@@ -323,15 +326,15 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 raise TypeError('Loaded part '+fname+' has wrong LMax')
             qlmWrk = qlmLoad
             shape = fname
-        elif 'zeroqlm' in line:
+        elif line.startswith('zeroqlm'):
             qlmTot *= 0
-        elif 'gettotal' in line:
+        elif line.startswith('gettotal'):
             qlmWrk = np.copy(qlmTot)
             shape = 'Total'
-        elif 'puttotal' in line:
+        elif line.startswith('puttotal'):
             qlmTot = np.copy(qlmWrk)
             shape = 'Working'
-        elif 'end' in line:
+        elif line.startswith('end'):
             print('end')
             break
         k += 1
-- 
2.43.0


From 0c7a2f817105c86c0e05a398c267f5688c7de3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 23/57] fix: sign of the mass of MULTIN triangles on the
 negative side

---
 newt/read_multiFor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 33f943d..a846f3e 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -189,7 +189,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 d, y1, y2, t = line2
                 dens = float(lines[3+k].split(',')[0])*1000
-                mass = dens*t*d*abs(y2-y1)/2
+                mass = dens*t*abs(d*(y2-y1))/2
                 qlmWrk = qlm.tri_prism(LMax, mass, t, d, y1, y2)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-- 
2.43.0


From 0a658b3ae115d02231fd624bd1b5975ae72ed672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 24/57] fix: upper radius of MULTIN cones was ignored

---
 newt/read_multiFor.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index a846f3e..6431bd4 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -178,9 +178,24 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 LR, UR, H = line2
                 dens = float(lines[3+k].split(',')[0])*1000
-                mass = dens*np.pi*H*LR**2/3
+                Rmin, Rmax = min(LR, UR), max(LR, UR)
+                if Rmin == Rmax:
+                    mass = dens*np.pi*H*LR**2
+                    qlmWrk = qlm.cylinder(LMax, mass, H, LR)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H/2])
+                else:
+                    # A truncated cone is a cone without its tip
+                    Hc = H*Rmax/(Rmax-Rmin)
+                    mass = dens*np.pi*Hc*Rmax**2/3
+                    qlmWrk = qlm.cone(LMax, mass, Hc, Rmax, 0, np.pi)
+                    if Rmin > 0:
+                        massTip = dens*np.pi*(Hc-H)*Rmin**2/3
+                        qlmTip = qlm.cone(LMax, massTip, Hc-H, Rmin, 0, np.pi)
+                        qlmWrk -= trs.translate_qlm(qlmTip, [0, 0, H])
+                    if UR > LR:
+                        qlmWrk = rot.rotate_qlm(qlmWrk, 0, np.pi, 0)
+                        qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H])
                 print(LR, UR, H, dens, mass)
-                qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
                 print('translated ', shape)
-- 
2.43.0


From 50c8af49ac798379841f0846398baa3f4608bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 25/57] fix: MULTIN trapezoids of equal or zero width were
 refused

---
 newt/read_multiFor.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 6431bd4..daa69e5 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -220,18 +220,25 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     w3, w4 = w1, w2
                     flip = False
                 dens = float(lines[3+k].split(',')[0])*1000
-                y1, y2 = w3/2, w4/2
-                hs = w3*h/(w4-w3)
-                hb = h + hs
-                massTrib = dens*t*w4*hb/2
-                massTris = dens*t*w3*hs/2
-                print(hs, hb, w3, w4)
-                qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
-                qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs, 0)
-                qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
-                if flip:
-                    qlmWrk = trs.translate_qlm(qlmWrk, [-(hb-hs), 0, 0])
-                    qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
+                if w3 == w4:
+                    # Equal widths make a rectangle
+                    qlmWrk = qlm.rect_prism(LMax, dens*t*w3*h, t, h, w3, 0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [h/2, 0, 0])
+                else:
+                    hs = w3*h/(w4-w3)
+                    hb = h + hs
+                    massTrib = dens*t*w4*hb/2
+                    massTris = dens*t*w3*hs/2
+                    print(hs, hb, w3, w4)
+                    qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
+                    if w3 > 0:
+                        # Zero width makes a triangle
+                        qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs,
+                                                    0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
+                    if flip:
+                        qlmWrk = trs.translate_qlm(qlmWrk, [-(hb-hs), 0, 0])
+                        qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
                 print('translated ', shape)
-- 
2.43.0


From 4c32d56ab5f11446b9ff352a48a7da438817bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 26/57] fix: outer moment files were not converted to SI

---
 newt/read_multiFor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index daa69e5..2269c7b 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -87,7 +87,8 @@ def read_gbq(filename, filepath='C:\\mom\\'):
     for line in lines[9:]:
         lsplit = line.split()
         lr, li = float(lsplit[0]), float(lsplit[1])
-        Qlmb[l, LMax+m] = lr+1j*li
+        # moments in cgs so convert to mks
+        Qlmb[l, LMax+m] = (lr+1j*li)*1e-3*(0.01)**(-l-1)
         m += 1
         if m > l:
             l += 1
-- 
2.43.0


From 6ec2afe1acaf3c59dd5240a43ac8d3f63e5c670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 27/57] fix: cloud of a sphere filled half its radius

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index d63c9bd..dc2740d 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -76,7 +76,7 @@ def sphere(mass, R, N):
     """
     pointArray = np.zeros([N**3, 4])
     pointArray[:, 0] = mass/N**3
-    grid = R/N
+    grid = 2*R/N
 
     ctr = 0
     for k in range(N):
-- 
2.43.0


From e0a73af18325cb0617fe5d3742b13aa6b3125f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 28/57] fix: cloud of a rectangle with unequal counts was off
 centre in y

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index dc2740d..bb77493 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -134,7 +134,7 @@ def rectangle(mass, x, y, z, nx, ny, nz):
         for l in range(ny):
             for m in range(nx):
                 pointArray[k*ny*nx+l*nx+m, 1] = (m-(nx-1)/2)*xgrid
-                pointArray[k*ny*nx+l*nx+m, 2] = (l-(nx-1)/2)*ygrid
+                pointArray[k*ny*nx+l*nx+m, 2] = (l-(ny-1)/2)*ygrid
                 pointArray[k*ny*nx+l*nx+m, 3] = (k-(nz-1)/2)*zgrid
 
     return pointArray
-- 
2.43.0


From 7869b1d1539870cd361d7c59b788e5dcd325158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 29/57] fix: clouds of triangles reaching below the x axis were
 cut

---
 newt/glibShapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index bb77493..31f2eb6 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -524,7 +524,7 @@ def tri_prism(mass, d, y1, y2, t, nx, ny, nz):
         print('Require y2 > y1')
         return []
     base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    yave = (np.max([0, y2])+np.min([0, y1]))/2
     zgrid = t/nz
     xgrid = d/nx
     ygrid = base/ny
@@ -584,7 +584,7 @@ def tetrahedron(mass, x, y1, y2, z, nx, ny, nz):
         print('Require y2 > y1')
         return []
     base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    yave = (np.max([0, y2])+np.min([0, y1]))/2
     zgrid = z/nz
     xgrid = x/nx
     ygrid = base/ny
-- 
2.43.0


From 7658cb34136761c624fddb31c5dba1e1913a5b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 30/57] fix: cloud of a pyramid had half its width and length

---
 newt/glibShapes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 31f2eb6..506a118 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -706,8 +706,8 @@ def pyramid(mass, x, y, z, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     zgrid = z/nz
-    xgrid = x/nx
-    ygrid = y/ny
+    xgrid = 2*x/nx
+    ygrid = 2*y/ny
     print(xgrid, ygrid)
 
     density = mass/(z*y*x/3)
@@ -722,10 +722,10 @@ def pyramid(mass, x, y, z, nx, ny, nz):
                 xval = (m-(nx-1)/2)*xgrid
                 yval = (l-(ny-1)/2)*ygrid
                 zval = (k-(nz-1)/2)*zgrid + z/2
-                yx = yval*x/2
-                xy = xval*y/2
-                xr = 2*xval/x
-                yr = 2*yval/y
+                yx = yval*x
+                xy = xval*y
+                xr = xval/x
+                yr = yval/y
                 # upper quad
                 if (xy <= yx) and (xy >= -yx) and (zval <= z*(1-yr)):
                     pointArray[ctr, 1:] = xval, yval, zval
-- 
2.43.0


From 26bb164e1680be6df3988373bbb3cc6f54945bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 31/57] fix: cloud of a cylinder hole had the cylinder along x

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 506a118..212e769 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -793,7 +793,7 @@ def cylhole(mass, r, R, nx, nz):
                 y = (l-(nx-1)/2)*ygrid
                 z = (k-(nz-1)/2)*zgrid
                 rz = np.sqrt(x**2 + y**2)
-                rx = np.sqrt(y**2 + z**2)
+                rx = np.sqrt(x**2 + z**2)
                 if rz <= r and rx <= R:
                     pointArray[ctr, 1:] = x, y, z
                     ctr += 1
-- 
2.43.0


From d87a26043c1e9a008ab3444c78c74947e42ff3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 32/57] fix: cloud of a plate hole was a skewed cylinder

---
 newt/glibShapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 212e769..defe64a 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -835,7 +835,8 @@ def platehole(mass, t, r, theta, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     s = np.tan(theta)
-    x = 2*(r + t*s/2)
+    c = np.cos(theta)
+    x = r/c + t*np.abs(s)/2
     zgrid = t/nz
     xgrid = 2*x/nx
     ygrid = 2*r/ny
@@ -854,7 +855,7 @@ def platehole(mass, t, r, theta, nx, ny, nz):
                 y = (l-(ny-1)/2)*ygrid
                 z = (k-(nz-1)/2)*zgrid
                 xz = z*s
-                if (y**2 + (x-xz)**2) <= r**2:
+                if (y**2 + ((x-xz)*c)**2) <= r**2:
                     pointArray[ctr, 1:] = x, y, z
                     ctr += 1
 
-- 
2.43.0


From 03e769885dd09e526bf9bb997c446f03c191c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 33/57] fix: Gauss-Legendre annulus was twice as thick and
 ignored its order in z

---
 newt/gShapeGL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index f50f68a..33a88fd 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -129,13 +129,13 @@ def annulus(mass, iR, oR, t, dd, dz):
     pointArray = np.zeros([dz*dd**2, 4])
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*oR
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*oR
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t
+                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
-- 
2.43.0


From 924c187af43603cd608e37772919eda297a2704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 34/57] fix: Gauss-Legendre wedge was twice as thick and
 ignored its order in z

---
 newt/gShapeGL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index 33a88fd..c404e51 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -230,13 +230,13 @@ def wedge(mass, iR, oR, t, theta, dd, dz):
     ctr = 0
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
                 x = sx[m]*dx + xa
                 y = sy[l]*ymax
-                z = sz[k]*t
+                z = sz[k]*t/2
                 w = wx[m]*wy[l]*wz[k]
                 r = np.sqrt(x**2 + y**2)
                 q = np.arctan2(y, x)
-- 
2.43.0


From 6e05f61087ea18cec8641d5768b356024c18fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 35/57] fix: Gauss-Legendre cone was a double cone and ignored
 its order in z

---
 newt/gShapeGL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index c404e51..d0f3cea 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -174,18 +174,18 @@ def cone(mass, R, H, dd, dz):
     tanTheta = H/R
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*R
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*R
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*H
+                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*H/2 + H/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
                            pointArray[k, 1]**2+pointArray[k, 2]**2 <=
-                           (pointArray[k, 3]/tanTheta)**2])
+                           ((H-pointArray[k, 3])/tanTheta)**2])
 
     # Correct the masses of the points
     pointArray[:, 0] *= mass/np.sum(pointArray[:, 0])
-- 
2.43.0


From 0b2c4581754cb435daf6add84c71556ae9f47241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 36/57] fix: Gauss-Legendre triangle was cut to half its width

---
 newt/gShapeGL.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index d0f3cea..bbfd885 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -150,7 +150,8 @@ def annulus(mass, iR, oR, t, dd, dz):
 
 def cone(mass, R, H, dd, dz):
     """
-    Creates point masses distributed in a cone of mass m.
+    Creates point masses distributed in a cone of mass m with apex at z=H
+    and base on the xy-plane.
 
     Inputs
     ------
@@ -294,7 +295,7 @@ def tri_prism(mass, d, y1, y2, t, dx, dy, dz):
         for l in range(dy):
             for m in range(dx):
                 pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*d/2 + d/2
-                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base/2 + yave
+                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base + yave
                 pointArray[k*dy*dx+l*dx+m, 3] = sz[k]*t/2
                 pointArray[k*dy*dx+l*dx+m, 0] = wx[m]*wy[l]*wz[k]
 
-- 
2.43.0


From abb6acb335d17a7cb4726b4cbe51d6eb933c7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 37/57] fix: mesh of a pyramid had half its base

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index d35bb2a..afb8028 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -422,7 +422,7 @@ def pyramid(pmass, x, y, z):
     -------
     result : CadQuery object
     """
-    vertices = [[x/2,y/2,0], [x/2,-y/2,0], [-x/2,-y/2,0], [-x/2,y/2,0], [0,0,z]]
+    vertices = [[x,y,0], [x,-y,0], [-x,-y,0], [-x,y,0], [0,0,z]]
     faces_ixs = [[0,1,2,3,0], [0,1,4,0], [1,2,4,1], [2,3,4,2], [3,0,4,3]]
 
     faces = []
-- 
2.43.0


From 8023b35ee1d1f5ab025a964cbe1b8add8e839db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 38/57] fix: mesh of an n-gon prism had half its size and
 ignored its azimuth

---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index afb8028..90000b6 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -312,9 +312,9 @@ def ngon_prism(pmass, H, a, phic, N):
     """
     ang = 2*np.pi/N
     R = a/np.sqrt(2*(1-np.cos(ang)))
-    result = cq.Workplane("XY").polygon(N, R).extrude(H/2, both=True)
+    result = cq.Workplane("XY").polygon(N, 2*R).extrude(H/2, both=True)
     result.pmass = pmass
-    result = rotate_mesh(result, ang/2, 0, 0)
+    result = rotate_mesh(result, phic + ang/2, 0, 0)
     return result
 
 
-- 
2.43.0


From f6b82134226df38f89acaa9e79fb2537b921ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 39/57] fix: mesh of a trapezoid lay along other axes than its
 moments

---
 newt/genCAD.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 90000b6..7f09ded 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -252,7 +252,8 @@ def rect_prism(pmass, H, a, b, phic):
 
 def trapezoid(pmass, t, w1, w2, h):
     """
-    Trapezoidal prism with longer face centered at origin.
+    Trapezoidal prism extending above and below the xy-plane by t/2, with its
+    face of width w1 centered at the origin and its face of width w2 at x=h.
 
     Inputs
     ------
@@ -261,9 +262,9 @@ def trapezoid(pmass, t, w1, w2, h):
     t : float
         thickness along z axis
     w1 : float
-        width of -y side
+        width along y of the side at x=0
     w2 : float
-        width of +y side
+        width along y of the side at x=h
     h : float
         height of trapezoid along x axis
     thickness : float
@@ -273,11 +274,14 @@ def trapezoid(pmass, t, w1, w2, h):
     -------
     result : CadQuery object
     """
+    points = [(0, -w1/2), (h, -w2/2), (h, w2/2), (0, w1/2)]
+    if w2 == 0:
+        points.pop(1)
+    if w1 == 0:
+        points.pop(0)
     result = (cq.Workplane("XY")
-        .rect(w1, t)
-        .workplane(offset=h)
-        .rect(w2, t)
-        .loft()
+        .polyline(points)
+        .close().extrude(t/2,both=True)
     )
     result.pmass = pmass
     return result
-- 
2.43.0


From c24c8505cbcbdcac5da77ea1a9262bfea473b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 40/57] fix: mesh of a cylinder hole mistook heights for radii

---
 newt/genCAD.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 7f09ded..bf8b838 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -448,7 +448,9 @@ def pyramid(pmass, x, y, z):
 
 def cylhole(pmass, r, R):
     """
-    Intersection of small cylinder through side of larger cylinder
+    Intersection of small cylinder through side of larger cylinder. The axis of
+    the small cylinder is along zhat, that of the larger cylinder along xhat as
+    for qlmNum.steinmetz.
 
     Inputs
     ------
@@ -461,9 +463,9 @@ def cylhole(pmass, r, R):
     -------
     result : CadQuery object
     """
-    mr = cylinder(0, r, 2*R)
-    mR = cylinder(0, R, 2*r)
-    mR = mR.rotate((0,0,0), (1,0,0), 90)
+    mr = cylinder(0, 4*R, r)
+    mR = cylinder(0, 4*R, R)
+    mR = mR.rotate((0,0,0), (0,1,0), 90)
     result = mr.intersect(mR)
     result.pmass = pmass
     return result
-- 
2.43.0


From 9a0fcd865231aeb6418935db82e8d8b400ce3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 41/57] fix: mesh of a plate hole was cut off at steep angles

---
 newt/genCAD.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index bf8b838..9757d8f 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -498,8 +498,10 @@ def platehole(pmass, t, r, theta):
     qlm : ndarray
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
-    rect = rect_prism(pmass, t, 2*r+2*t*np.sin(theta), 2*r + 2*t*np.sin(theta), 0)
-    cyl = cylinder(0, 2*t, r)
+    # Larger than the elliptical ends of the hole, and longer than its sides
+    side = 2*(2*r + t)/np.cos(theta)
+    rect = rect_prism(pmass, t, side, side, 0)
+    cyl = cylinder(0, 2*side, r)
     cyl = rotate_mesh(cyl, 0, theta, 0)
     result = rect.intersect(cyl)
     result.pmass = pmass
-- 
2.43.0


From 472328ec133858259e18f262fc4ccaecfb006420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 42/57] fix: mesh of an outer cone was turned from its moments

---
 newt/genCAD.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 9757d8f..3862818 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -533,10 +533,11 @@ def outercone(pmass, H, IR, OR, phih):
         raise ValueError('IR must be greater than 0.')
     else:
         result = (cq.Workplane("XZ")
-            .lineTo(OR,0).lineTo(IR,H).lineTo(IR,0)
+            .moveTo(IR,0).lineTo(OR,0).lineTo(IR,H)
             .close().revolve(2*phih*180/np.pi,(0,0,0),(0,1,0))
         )
     result.pmass = pmass
+    result = rotate_mesh(result, -phih, 0, 0)
     return result
 
 
-- 
2.43.0


From a904c1605985c470101c3ebda5141e00036879ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 43/57] fix: meshes were turned by their Euler angles in the
 wrong order

---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 3862818..e6006e8 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -579,9 +579,9 @@ def rotate_mesh(mesh, alpha, beta, gamma):
     result: CadQuery object
     """
     pmass = mesh.pmass
-    result = mesh.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
+    result = mesh.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
     result = result.rotate((0,0,0), (0,1,0), beta*180/np.pi)
-    result = result.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
+    result = result.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
     result.pmass = pmass
     return result
 
-- 
2.43.0


From 82ec1880acba3225f7d83263f693dffe6db5de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 44/57] fix: a single mesh could not be saved

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index e6006e8..fca32e4 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -611,7 +611,7 @@ def save_stl(mesh, name):
     -------
     None. Outputs file
     """
-    if hasattr(mesh, '__iter__'):
+    if isinstance(mesh, (list, tuple)):
         tmpmesh = sum_mesh(mesh)
         cq.exporters.export(tmpmesh, f"{name}.stl",tolerance=.01)
 
-- 
2.43.0


From 9e923536a9b24902d6ecefdcf19f54acc7b5e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 45/57] fix: bodies with outer moments were rotated as inner
 ones

---
 newt/shapes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 4f0dd43..cf31f71 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -56,7 +56,12 @@ class Shape:
         np.savetxt(filename+'.txt', self.qlm, header=header)
 
     def rotate(self, alpha, beta, gamma):
-        self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        if self.inner:
+            self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        else:
+            # Outer moments rotate as the conjugates of inner moments
+            self.qlm = np.conj(rot.rotate_qlm(np.conj(self.qlm), alpha, beta,
+                                              gamma))
         self.mesh = gcad.rotate_mesh(self.mesh, alpha, beta, gamma)
 
         # Rotate center of mass using point-gravity tools
-- 
2.43.0


From 779243128c6b906e94e85d1292a6e048588e4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 46/57] fix: refused translation of a body moved its mesh and
 center of mass

---
 newt/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index cf31f71..b6e2666 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -72,17 +72,17 @@ class Shape:
         self.com = rotcom[1:4]
 
     def translate(self, tvec, to_inner):
-        self.com += tvec
-        self.mesh = gcad.translate_mesh(self.mesh, tvec)
         if self.inner and to_inner:
             self.qlm = trs.translate_qlm(self.qlm, tvec)
         elif self.inner and not to_inner:
-            self.inner = False
             self.qlm = trs.translate_q2Q(self.qlm, tvec)
+            self.inner = False
         elif not self.inner and not to_inner:
             self.qlm = trs.translate_Qlmb(self.qlm, tvec)
         else:
             raise ValueError('Outer to inner translations not allowed.')
+        self.com = self.com + np.asarray(tvec, dtype=float)
+        self.mesh = gcad.translate_mesh(self.mesh, tuple(tvec))
 
     def add(self, shapes):
         """
-- 
2.43.0


From 6ea71f6cc8967f323fdc18f9e73cdd1d6d2abeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 47/57] fix: off-center bodies had their center of mass at the
 origin

---
 newt/shapes.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index b6e2666..c6ed73a 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -7,6 +7,7 @@ Created on Sun Oct 18 20:28:18 2020
 import numpy as np
 import matplotlib.pyplot as plt
 import mpl_toolkits.mplot3d as mp3d
+import cadquery as cq
 import newt.qlm as qlm
 import newt.qlmNum as qlmn
 import newt.bigQlm as bqlm
@@ -31,6 +32,13 @@ class Shape:
         self.mass = 0
         self.mesh = None
 
+    def set_mesh(self, mesh):
+        """
+        Set the mesh of a homogeneous body and its center of mass with it.
+        """
+        self.mesh = mesh
+        self.com = np.array(cq.Shape.CombinedCenter(mesh.vals()).toTuple())
+
     def save_shape(self, filename):
         #fig = plt.figure()
         #ax = mp3d.Axes3D(fig)
@@ -139,7 +147,7 @@ class Annulus(Shape):
     def __init__(self, lmax, inner, mass, H, Ri, Ro, phic, phih):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.annulus(mass > 0, H, Ri, Ro, phic, phih)
+        self.set_mesh(gcad.annulus(mass > 0, H, Ri, Ro, phic, phih))
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
@@ -155,7 +163,7 @@ class RectPrism(Shape):
     def __init__(self, lmax, inner, mass, H, a, b, phic):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.rect_prism(mass > 0, H, a, b, phic)
+        self.set_mesh(gcad.rect_prism(mass > 0, H, a, b, phic))
         if self.inner:
             self.qlm = qlm.rect_prism(lmax, mass, H, a, b, phic)
         else:
@@ -169,7 +177,7 @@ class TriPrism(Shape):
     def __init__(self, lmax, inner, mass, H, d, y1, y2):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.tri_prism(mass > 0, H, d, y1, y2)
+        self.set_mesh(gcad.tri_prism(mass > 0, H, d, y1, y2))
         if self.inner:
             self.qlm = qlm.tri_prism(lmax, mass, H, d, y1, y2)
         else:
@@ -183,7 +191,7 @@ class Cone(Shape):
     def __init__(self, lmax, inner, mass, P, R, phic, phih):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.cone(mass > 0, P, 0, R, phic, phih)
+        self.set_mesh(gcad.cone(mass > 0, P, 0, R, phic, phih))
         if self.inner:
             self.qlm = qlm.cone(lmax, mass, P, R, phic, phih)
         else:
@@ -197,7 +205,7 @@ class Sphere(Shape):
     def __init__(self, lmax, inner, mass, R, center):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.sphere(mass > 0, R)
+        self.set_mesh(gcad.sphere(mass > 0, R))
         if self.inner:
             self.qlm = qlm.sphere(lmax, mass, R)
             self.translate(center, True)
@@ -213,7 +221,7 @@ class NGon(Shape):
     def __init__(self, lmax, inner, mass, H, a, phic, N):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.ngon_prism(mass > 0, H, a, phic, N)
+        self.set_mesh(gcad.ngon_prism(mass > 0, H, a, phic, N))
         if self.inner:
             self.qlm = qlm.ngon_prism(lmax, mass, H, a, phic, N)
         else:
@@ -227,7 +235,7 @@ class Tetrahedron(Shape):
     def __init__(self, lmax, inner, mass, x, y1, y2, z):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.tetrahedron2(mass > 0, x, y1, y2, z)
+        self.set_mesh(gcad.tetrahedron2(mass > 0, x, y1, y2, z))
         if self.inner:
             self.qlm = qlm.tetrahedron2(lmax, mass, x, y1, y2, z)
         else:
@@ -241,7 +249,7 @@ class Pyramid(Shape):
     def __init__(self, lmax, inner, mass, x, y, z):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.pyramid(mass > 0, x, y, z)
+        self.set_mesh(gcad.pyramid(mass > 0, x, y, z))
         if self.inner:
             self.qlm = qlm.pyramid(lmax, mass, x, y, z)
         else:
@@ -255,7 +263,7 @@ class OuterCone(Shape):
     def __init__(self, lmax, inner, mass, H, IR, OR, phih):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.outercone(mass, H, IR, OR, phih)
+        self.set_mesh(gcad.outercone(mass, H, IR, OR, phih))
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
@@ -270,7 +278,7 @@ class Cylhole(Shape):
     def __init__(self, lmax, inner, mass, r, R):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.cylhole(mass > 0, r, R)
+        self.set_mesh(gcad.cylhole(mass > 0, r, R))
         if self.inner:
             dens = 1
             self.qlm = qlmn.steinmetz(lmax, dens, r, R)
@@ -286,7 +294,7 @@ class Platehole(Shape):
     def __init__(self, N, lmax, inner, mass, t, r, theta):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.platehole(mass > 0, t, r, theta)
+        self.set_mesh(gcad.platehole(mass > 0, t, r, theta))
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
-- 
2.43.0


From 449e1db9c3f87353a37eab8af0646f96c6766e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 48/57] fix: outer moments of an annulus had half its mass

---
 newt/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index c6ed73a..2899b98 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -151,7 +151,7 @@ class Annulus(Shape):
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
-            dens = mass/(2*phih*(Ro**2 - Ri**2)*H)
+            dens = mass/(phih*(Ro**2 - Ri**2)*H)
             self.qlm = bqlm.annulus(lmax, dens, H/2, Ri, Ro, phic, phih)
             self.qlm += bqlm.annulus(lmax, dens, -H/2, Ri, Ro, phic, phih)
 
-- 
2.43.0


From a904283c64bb0301c384f408300bbd8d2e9e1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 49/57] fix: outer moments of a sphere were dropped and its
 mesh not placed

---
 newt/shapes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 2899b98..3943d19 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -211,7 +211,9 @@ class Sphere(Shape):
             self.translate(center, True)
         else:
             dens = mass/(4*np.pi*R**3/3)
-            bqlm.sphere(lmax, dens, R, center[0], center[1], center[2])
+            self.qlm = bqlm.sphere(lmax, dens, R, center[0], center[1],
+                                   center[2])
+            self.set_mesh(gcad.translate_mesh(self.mesh, tuple(center)))
 
 
 class NGon(Shape):
-- 
2.43.0


From c74e06703745fad5a82488d31affe4ea08b0a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 50/57] fix: outer moments of a cone were dropped and their
 density wrong

---
 newt/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 3943d19..31485c5 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -265,12 +265,12 @@ class OuterCone(Shape):
     def __init__(self, lmax, inner, mass, H, IR, OR, phih):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.set_mesh(gcad.outercone(mass, H, IR, OR, phih))
+        self.set_mesh(gcad.outercone(mass > 0, H, IR, OR, phih))
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-            dens = mass/(2*phih*H*(OR**2-IR**2)/3)
-            bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
+            dens = mass/(phih*H*(OR-IR)*(OR+2*IR)/3)
+            self.qlm = bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
 
 
 class Cylhole(Shape):
-- 
2.43.0


From af8fe6dc0bd2dcfc11125bb7c9b547dfc582bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 51/57] fix: moments of drilled holes were 4 pi times their
 mass

---
 newt/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 31485c5..f11b54d 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -284,7 +284,7 @@ class Cylhole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.steinmetz(lmax, dens, r, R)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/np.real(self.qlm[0, lmax])/np.sqrt(4*np.pi)
         else:
             print('Outer cylindrical hole shape not defined.')
 
@@ -300,6 +300,6 @@ class Platehole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/np.real(self.qlm[0, lmax])/np.sqrt(4*np.pi)
         else:
             print('Outer plate hole shape not defined.')
-- 
2.43.0


From f30a3cddce9dbf2e98300c9943299957c7e8b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 52/57] fix: moments of a plate hole were tilted from its mesh

---
 newt/shapes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newt/shapes.py b/newt/shapes.py
index f11b54d..9373172 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -300,6 +300,8 @@ class Platehole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
+            # Lay the plate flat as in the mesh, tilting the hole instead
+            self.qlm = rot.rotate_qlm(self.qlm, 0, theta, 0)
             self.qlm *= mass/np.real(self.qlm[0, lmax])/np.sqrt(4*np.pi)
         else:
             print('Outer plate hole shape not defined.')
-- 
2.43.0


From e56002bb25f7f357df7526621e38c523764ff82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 53/57] fix: Octave moments took the polar angle from the wrong
 pole

---
 matlab-src/computeMoments.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/computeMoments.m b/matlab-src/computeMoments.m
index e875433..e039f11 100644
--- a/matlab-src/computeMoments.m
+++ b/matlab-src/computeMoments.m
@@ -47,7 +47,7 @@ function moment = computeMoments( l, m, mArray )
 				end
 			%main case
 			else
-				theta = atan( z / rxy ) + pi / 2.0;
+				theta = pi / 2.0 - atan( z / rxy );
 			end
 
 			%Phi computation
-- 
2.43.0


From df1209bc441d79fc1481ca58e4171bf99f447934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 54/57] fix: Octave point-mass line ignored where it starts

---
 matlab-src/shapes/genPointMassLine.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/shapes/genPointMassLine.m b/matlab-src/shapes/genPointMassLine.m
index fc1c07f..0802f84 100644
--- a/matlab-src/shapes/genPointMassLine.m
+++ b/matlab-src/shapes/genPointMassLine.m
@@ -17,7 +17,7 @@ function  o = genPointMassLine( eachMass, x, y, zstart, zspace, N)
 
         o = ones(N,4);
 
-	o = [  o(:,1) * eachMass, o(:,2) * x, o(:,3) * y, (0: (N- 1) )' * zspace];
+	o = [  o(:,1) * eachMass, o(:,2) * x, o(:,3) * y, zstart + (0: (N- 1) )' * zspace];
 
 
 end
-- 
2.43.0


From 26218185fe9828ffb8547ffe80b0797a8a535080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 55/57] fix: Octave y-z scatter moved the points in x and y

---
 matlab-src/scatterPMMassesYZGrid.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/scatterPMMassesYZGrid.m b/matlab-src/scatterPMMassesYZGrid.m
index c8069fe..5025cf0 100644
--- a/matlab-src/scatterPMMassesYZGrid.m
+++ b/matlab-src/scatterPMMassesYZGrid.m
@@ -21,6 +21,6 @@ function M = scatterPMMassesYZGrid(M);
 
 	R = pendulumPMScanGridSize * randn(rows(M), 2);
 
-	M(:,2:3) = M(:,2:3) + R;
+	M(:,3:4) = M(:,3:4) + R;
 
 end
-- 
2.43.0


From 449bc40d1612dbf7ae90b4458bfb3fde341d09c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 56/57] fix: Yukawa translation from inner to outer moments had
 wrong signs

---
 newt/translationRecurs.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/newt/translationRecurs.py b/newt/translationRecurs.py
index 0153d9b..af44b75 100644
--- a/newt/translationRecurs.py
+++ b/newt/translationRecurs.py
@@ -38,7 +38,7 @@ def transl_yuk_z_SR_recurs(LMax, dr, k):
             blmm = get_bnm(l, -m-1)
             blmp = get_bnm(l+1, m)
             bmm = get_bnm(m+1, -m-1)
-            eflm[l, m+1] = (eflm[l-1, m]*blmm - eflm[l+1, m]*blmp)/bmm
+            eflm[l, m+1] = (eflm[l+1, m]*blmp - eflm[l-1, m]*blmm)/bmm
 
     efms = []
     # Now create (E|F)^m matrices (p-|m|)x(p-|m|)
@@ -52,13 +52,8 @@ def transl_yuk_z_SR_recurs(LMax, dr, k):
                 alm = get_anm(l+m, m)
                 almm = get_anm(l-1+m, m)
                 anmm = get_anm(n-1+m, m)
-                print(l, n+1, l+m, anm, anmm, alm, almm)
-                if anmm != 0:
-                    print(l, n, m)
-                    efm[l, n+1] = (almm*efm[l-1, n] - alm*efm[l+1, n]
-                                   + anmm*efm[l, n-1])/anm
-                else:
-                    efm[l, n+1] = (alm*efm[l+1, n] - almm*efm[l-1, n])/anm
+                efm[l, n+1] = -(almm*efm[l-1, n] + alm*efm[l+1, n]
+                                + anmm*efm[l, n-1])/anm
         efms.append(efm)
 
     for m in range(LMax+1):
-- 
2.43.0


From 2e928994ca482fa664e397b1add23b379ff4c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 57/57] fix: Yukawa translation of inner moments had wrong
 signs

---
 newt/translationRecurs.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/newt/translationRecurs.py b/newt/translationRecurs.py
index af44b75..6dffa23 100644
--- a/newt/translationRecurs.py
+++ b/newt/translationRecurs.py
@@ -110,23 +110,15 @@ def transl_yuk_z_RR_recurs(LMax, dr, k):
                 alm = get_anm(l+m, m)
                 almm = get_anm(l-1+m, m)
                 anmm = get_anm(n-1+m, m)
-                print(l, n+1, l+m, anm, anmm, alm, almm)
-                if anmm != 0:
-                    print(l, n, m)
-                    efm[l, n+1] = (almm*efm[l-1, n] - alm*efm[l+1, n]
-                                   + anmm*efm[l, n-1])/anm
-                else:
-                    efm[l, n+1] = (alm*efm[l+1, n] - almm*efm[l-1, n])/anm
+                efm[l, n+1] = (almm*efm[l-1, n] + alm*efm[l+1, n]
+                               - anmm*efm[l, n-1])/anm
         efms.append(efm)
 
     for m in range(LMax+1):
         efms[m] = efms[m][:LMax-m+1, :LMax-m+1]
-        lm = len(efms[m])
-        # Start from m since (E|F)^m matrix starts at (m,m) corner
-        nls = (np.arange(m, m+lm))
-        enl = np.transpose(efms[m])*np.outer((-1)**(nls), (-1)**(nls))
-        efms[m] += enl
-        efms[m] -= np.diag(np.diag(enl))
+        # Regular to regular translation is symmetric in degree
+        enl = np.transpose(efms[m])
+        efms[m] = efms[m] + enl - np.diag(np.diag(enl))
 
     return eflm, efms
 
-- 
2.43.0


From bc15d2fd87bfdc3da1ada969bfc87d3ba801a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 001/156] fix: check GPS L2/L5 tracking attributes against the
 band digit

---
 src/cssrlib/gnss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index f5bd40f..84ea328 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -477,8 +477,8 @@ class rSigRnx():
         if len(s) == 3:
             if sys == uGNSS.GPS:
                 if (s[1] == '1' and s[2] not in 'CSLXPWYM') or \
-                   (s[2] == '2' and s[2] not in 'CDSLXPWYMN') or \
-                   (s[2] == '5' and s[2] not in 'IQX'):
+                   (s[1] == '2' and s[2] not in 'CDSLXPWYMN') or \
+                   (s[1] == '5' and s[2] not in 'IQX'):
                     raise ValueError
             elif sys == uGNSS.GLO:
                 if (s[1] == '1' and s[2] not in 'CPX') or \
-- 
2.43.0


From 0b5d62f3d85bbe63569aba7f332d05d2e8d3f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 002/156] fix: GLONASS G2a is RINEX band 6

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 84ea328..de89a72 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -574,7 +574,7 @@ class rSigRnx():
                 return rCST.FREQ_R3
             elif int(self.sig / 100) == 4:
                 return rCST.FREQ_R1a
-            elif int(self.sig / 100) == 5:
+            elif int(self.sig / 100) in (5, 6):
                 return rCST.FREQ_R2a
             else:
                 return None
-- 
2.43.0


From 52c75e616a628aa17b57783cb37abdf77f534763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 003/156] fix: NavIC L5 carrier frequency

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index de89a72..23b9f48 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -81,7 +81,7 @@ class rCST():
     FREQ_S5 = 1176.45e6      # [Hz] SBS L5
 
     FREQ_I1 = 1575.42e6      # [Hz] IRS L1
-    FREQ_I5 = 1191.795e6     # [Hz] IRS L5
+    FREQ_I5 = 1176.45e6      # [Hz] IRS L5
     FREQ_IS = 2492.028e6     # [Hz] IRS S
 
     COS_5 = 0.9961946980917456
-- 
2.43.0


From 34f9b83df4e4ddb67f1a8ab28d5918cb57f8b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 004/156] fix: sid2prn referred to constants that do not exist

---
 src/cssrlib/gnss.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 23b9f48..919cbea 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1316,11 +1316,9 @@ def sys2str(sys):
 def sid2prn(sys, sid):
     """ convert satellite id to prn """
     if sys == uGNSS.QZS:
-        prn = sid+rCST.MINPRNQZS-1
-    elif sys == uGNSS.BDS3:
-        prn = sid+rCST.MINPRNBDS3-1
+        prn = sid+uGNSS.MINPRNQZS-1
     elif sys == uGNSS.SBS:
-        prn = sid+rCST.MINPRNSBS-1
+        prn = sid+uGNSS.MINPRNSBS-1
     else:
         prn = sid
     return prn
-- 
2.43.0


From 69df847fd0f47eb9acf0467b5e5dc9402fc5268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 005/156] fix: GLONASS G2a carrier frequency is 1248.06 MHz

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 919cbea..5b3d6fe 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -55,7 +55,7 @@ class rCST():
     FREQ_R2 = 1246.000e6     # [Hz] GLO G2   FDMA center frequency
     FREQ_R2k = 437.500e3     # [Hz] GLO G2   FDMA frequency separation
     FREQ_R1a = 1600.995e6    # [Hz] GLO G1a
-    FREQ_R2a = 1248.065e6    # [Hz] GLO G2a
+    FREQ_R2a = 1248.060e6    # [Hz] GLO G2a
     FREQ_R3 = 1202.025e6     # [Hz] GLO G3
 
     FREQ_E1 = 1575.42e6      # [Hz] GAL E1
-- 
2.43.0


From b56f5087281d579637343f884a058f90f2cddf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 006/156] fix: GLONASS epoch of RTCM messages applied the leap
 seconds twice

---
 src/cssrlib/rtcm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 65d8739..353c188 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -990,9 +990,9 @@ class rtcm(cssr, rtcmUtil):
         if sys==uGNSS.GLO and self.msgtype != 4076:
             self.tod = bs.unpack_from('u17', msg, i)[0]     
             i += 17
-            self.time = utc2gpst(glo2time(self.time, self.tod))
+            self.time = glo2time(self.time, self.tod)
             if self.workaround_sc134:
-                self.time = timeadd(self.time, -36) # work-around
+                self.time = timeadd(self.time, -18) # work-around
         else:
             self.tow = bs.unpack_from('u20', msg, i)[0]   
             i += 20               
@@ -1488,7 +1488,7 @@ class rtcm(cssr, rtcmUtil):
             week, _ = time2bdt(gpst2bdt(gpst2time(self.week, tow)))
             time = bdt2gpst(bdt2time(week, tow))
         elif sys == uGNSS.GLO:
-            time = utc2gpst(glo2time(self.time, tow))
+            time = glo2time(self.time, tow)
         else:
             time = gpst2time(self.week, tow)
         return i, sys, time
@@ -1529,9 +1529,9 @@ class rtcm(cssr, rtcmUtil):
             sz = 20 if self.msgtype == 4076 or sys != uGNSS.GLO else 17
             tow = bs.unpack_from('u'+str(sz), msg, i)[0]
             if sys == uGNSS.GLO:
-                t = utc2gpst(glo2time(self.time, tow))
+                t = glo2time(self.time, tow)
                 if self.workaround_sc134:
-                    t = timeadd(t, -36) # work-around on sc134
+                    t = timeadd(t, -18) # work-around on sc134
                 return t
             else:
                 self.tow = tow
-- 
2.43.0


From 40a0767fcf36bfccdc9107a70b6a832b41e3f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 007/156] fix: scale factors of the RTCM SSR clock rate terms

---
 src/cssrlib/rtcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 353c188..5a6a1da 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1083,8 +1083,8 @@ class rtcm(cssr, rtcmUtil):
         dclk, ddclk, dddclk = bs.unpack_from('s22s21s27', msg, i)
         i += 70
         self.dclk_n[k] = self.sval(dclk, 22, 0.1e-3)
-        self.ddclk_n[k] = self.sval(ddclk, 21, 0.4e-3)
-        self.dddclk_n[k] = self.sval(dddclk, 27, 4e-6)
+        self.ddclk_n[k] = self.sval(ddclk, 21, 1e-6)
+        self.dddclk_n[k] = self.sval(dddclk, 27, 2e-8)
         return i
 
     def decode_hclk_sat(self, msg, i, k, inet=0):
@@ -4614,8 +4614,8 @@ class rtcme(cssre, rtcmUtil):
         dclk = self.ival(self.lc[inet].dclk[sat], 22, 0.1e-3)
 
         if self.lc[inet].ddclk is not None:
-            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 0.4e-3)
-            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 4e-6)
+            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 1e-6)
+            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 2e-8)
         else:
             ddclk, dddclk = 0, 0
 
-- 
2.43.0


From 4934fbe5abcccc8453118c52cc83fcabd343f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 008/156] fix: allocate the clock array for RTCM high-rate
 clock messages

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 5a6a1da..d2365d2 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1384,6 +1384,8 @@ class rtcm(cssr, rtcmUtil):
         if timediff(self.time, self.lc[inet].t0s[sCType.HCLOCK]) > 0:
             self.lc[inet].hclk = {}
 
+        self.dclk_n = np.zeros(v['nsat'])
+
         self.iodssr = v['iodssr']
         self.udi[sCType.HCLOCK] = v['udi']
         self.mi = v['mi']
-- 
2.43.0


From fad6cae86942dbd6968a80cb3d196793a6c6e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 009/156] fix: header values of the extended phase bias message
 were unbound

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d2365d2..7015da2 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -998,6 +998,7 @@ class rtcm(cssr, rtcmUtil):
             i += 20               
             self.time = gpst2time(self.week, self.tow)
 
+        v = {}
         if self.subtype not in [sRTCM.SSR_PBIAS_EX]:
             udi, mi = bs.unpack_from('u4b1', msg, i)
             i += 5
-- 
2.43.0


From 726aa841e41e9583d72052d2d944b04b0ec62ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 010/156] fix: QZSS SSR signal 2 is L1C(P)

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 7015da2..b503183 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -570,7 +570,7 @@ class rtcmUtil:
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
@@ -924,7 +924,7 @@ class rtcm(cssr, rtcmUtil):
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
-- 
2.43.0


From 7fd0b05043ae08857026dcd91ce10a372f357061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 011/156] fix: epoch of IGS SSR messages in decode_time

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index b503183..cb95866 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1530,6 +1530,8 @@ class rtcm(cssr, rtcmUtil):
         sys, ssr = self.ssrtype(self.msgtype)
         if ssr > 0 or self.msgtype == 4076:
             sz = 20 if self.msgtype == 4076 or sys != uGNSS.GLO else 17
+            if self.msgtype == 4076:  # skip version and subtype
+                i += 11
             tow = bs.unpack_from('u'+str(sz), msg, i)[0]
             if sys == uGNSS.GLO:
                 t = glo2time(self.time, tow)
-- 
2.43.0


From c34cedb1e7e958efc51e739c8257dce2a5c50652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 012/156] fix: decode returns all its results for skipped
 message types

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index cb95866..98d2f03 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3977,7 +3977,7 @@ class rtcm(cssr, rtcmUtil):
         self.subtype = subtype
 
         if self.msgtype in self.mt_skip:
-            return i
+            return i, obs, eph, geph, seph
 
         # SSR messages
         if self.msgtype in (1057, 1063, 1240, 1246, 1252, 1258):
-- 
2.43.0


From 25c29c80fd58b46c4ae40199e08fa30453d96911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 013/156] fix: satellite id of RTCM SSR messages for GLONASS
 and SBAS in the encoder

---
 src/cssrlib/rtcm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 98d2f03..e18f9cd 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4561,15 +4561,16 @@ class rtcme(cssre, rtcmUtil):
     def encode_sat(self, msg, i, sat):
         """ encode satellite id """
 
-        sys, prn = sat2prn(sat)
-        svid = prn
+        sys, _ = sat2prn(sat)
+        svid = self.sat2svid(sat)
 
         if self.msgtype == 4076:
             blen = 6
         else:
-            if sys == uGNSS.QZS:
+            if sys == uGNSS.GLO:
+                blen = 5
+            elif sys == uGNSS.QZS:
                 blen = 4
-                svid = prn-192
             else:
                 blen = 6
 
-- 
2.43.0


From b2c2315a4fcab053f29132758e75ea0286e5f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 014/156] fix: round the encoded SSR code bias and handle
 missing values

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index e18f9cd..86fdf11 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4704,7 +4704,7 @@ class rtcme(cssre, rtcmUtil):
             i += 5
 
             for rsig_ in cbias:
-                cb = int(cbias[rsig_]/0.01)
+                cb = self.ival(cbias[rsig_], 14, 0.01)
                 code = self.rsig2code(rsig_)
                 bs.pack_into('u5s14', msg, i, code, cb)
                 i += 19
-- 
2.43.0


From 45fbe0c2bb019153f97cb6b5be17eda4aeed5e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 015/156] fix: encoders of the combined and high-rate clock SSR
 messages were missing

---
 src/cssrlib/rtcm.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 86fdf11..6d02010 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4668,6 +4668,35 @@ class rtcme(cssre, rtcmUtil):
 
         return i
 
+    def encode_cssr_comb(self, msg, i, inet=0):
+        """encode RTCM SSR Combined Orbit and Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        i = self.encode_head(msg, i, sys)
+
+        for sat in self.sat_n:
+            sys_, _ = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_orb_sat(msg, i, sat)
+            i = self.encode_clk_sat(msg, i, sat)
+
+        return i
+
+    def encode_cssr_hclk(self, msg, i, inet=0):
+        """encode RTCM SSR High-rate Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        i = self.encode_head(msg, i, sys)
+
+        for sat in self.sat_n:
+            sys_, _ = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_hclk_sat(msg, i, sat)
+
+        return i
+
     def encode_cssr_ura(self, msg, i, inet=0):
         """ encode RTCM SSR URA message """
         sys = self.get_ssr_sys(self.msgtype)
-- 
2.43.0


From 377cf03afece6511aef55e8ef4346559eb6b73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 016/156] fix: satellite count of encoded URA and code bias
 messages

---
 src/cssrlib/rtcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 6d02010..2df5abd 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4513,7 +4513,7 @@ class rtcme(cssre, rtcmUtil):
 
         return i
 
-    def encode_head(self, msg, i, sys=uGNSS.NONE):
+    def encode_head(self, msg, i, sys=uGNSS.NONE, sats=None):
         """ encode the header of ssr message """
         if self.msgtype == 4076 or sys != uGNSS.GLO:
             blen = 20
@@ -4546,7 +4546,7 @@ class rtcme(cssre, rtcmUtil):
         if self.subtype not in [sCSSR.VTEC, sRTCM.SSR_PBIAS, sRTCM.SSR_STEC,
                                 sRTCM.SSR_TROP]:
             nsat = 0
-            for sat in self.sat_n:
+            for sat in self.sat_n if sats is None else sats:
                 sys_, _ = sat2prn(sat)
                 if sys_ != sys:
                     continue
@@ -4700,8 +4700,8 @@ class rtcme(cssre, rtcmUtil):
     def encode_cssr_ura(self, msg, i, inet=0):
         """ encode RTCM SSR URA message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
         ura = self.lc[inet].ura
+        i = self.encode_head(msg, i, sys, ura)
 
         for sat in ura:
             sys_, _ = sat2prn(sat)
@@ -4720,7 +4720,7 @@ class rtcme(cssre, rtcmUtil):
     def encode_cssr_cbias(self, msg, i, inet=0):
         """ encode RTCM SSR code bias message """
         sys = self.get_ssr_sys(self.msgtype)
-        i = self.encode_head(msg, i, sys)
+        i = self.encode_head(msg, i, sys, self.lc[inet].cbias)
 
         for sat in self.lc[inet].cbias:
             sys_, _ = sat2prn(sat)
-- 
2.43.0


From adb12e16fca43cfbad0777974fbc2b9697b0bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 017/156] fix: yaw fields of encoded SSR phase bias follow the
 yaw indicator

---
 src/cssrlib/rtcm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 2df5abd..1e2ea66 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4765,9 +4765,11 @@ class rtcme(cssre, rtcmUtil):
             bs.pack_into('u5', msg, i, nsig)
             i += 5
 
-            if sat in self.lc[inet].yaw:
-                yaw = int(self.lc[inet].yaw[sat]*256.0)
-                dyaw = int(self.lc[inet].dyaw[sat]*8192.0)
+            if self.subtype != sRTCM.SSR_PBIAS or self.iyaw:
+                yaw, dyaw = 0, 0
+                if sat in self.lc[inet].yaw:
+                    yaw = round(self.lc[inet].yaw[sat]*256.0) & 0x1ff
+                    dyaw = self.ival(self.lc[inet].dyaw[sat], 8, 1.0/8192.0)
                 bs.pack_into('u9s8', msg, i, yaw, dyaw)
                 i += 17
 
-- 
2.43.0


From e1cfe6397ab48c4ce93a06ab867cb94bd79f086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 018/156] fix: URA index of a decoded URA value was one step
 too low

---
 src/cssrlib/cssrlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 00800c3..5ba9131 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1505,6 +1505,6 @@ class cssre():
         """ convert from quality to quality index (class, value) """
         n3 = np.log(3)
         n_ = np.log(y*1000+1)/n3
-        cls_ = int(n_)
-        val_ = int((np.exp((n_-cls_)*n3)-1)/0.25)
+        cls_ = int(n_+1e-9)
+        val_ = int((np.exp((n_-cls_)*n3)-1)/0.25+1e-9)
         return cls_, val_
-- 
2.43.0


From f95c674df691b1fdfbab0d349f906d0e9235d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 019/156] fix: rough range of MSM1-3 is the range modulo 1 ms

---
 src/cssrlib/rtcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 1e2ea66..3466e93 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2336,8 +2336,7 @@ class rtcm(cssr, rtcmUtil):
         if msm >= 1 and msm <= 3:
             for k in range(self.nsat):
                 v = bs.unpack_from('u10', msg, i)[0]
-                if v != 2**10-1:
-                    r[k] = v*rms
+                r[k] = v*rCST.P2_10*rms
                 i += 10
         else:
             for k in range(self.nsat):
-- 
2.43.0


From 96adcf1fe792e25602f4ee1a522d4c134fa9f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 020/156] fix: observations of an MSM satellite without rough
 range are not available

---
 src/cssrlib/rtcm.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 3466e93..3b29e17 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2341,16 +2341,14 @@ class rtcm(cssr, rtcmUtil):
         else:
             for k in range(self.nsat):
                 v = bs.unpack_from('u8', msg, i)[0]
-                if v != 2**8-1:
-                    r[k] = v*rms
+                r[k] = v*rms if v != 2**8-1 else np.nan
                 i += 8
             if msm == 5 or msm == 7:
                 for k in range(self.nsat):
                     ex[k] = bs.unpack_from('u4', msg, i)[0]
                     i += 4
             for k in range(self.nsat):
-                if r[k] != 0.0:
-                    r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
+                r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
                 i += 10
             if msm == 5 or msm == 7:
                 for k in range(self.nsat):
-- 
2.43.0


From d0f1cb29604b343c35fcd89e4ef7a2113a67e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 021/156] fix: loss of lock was never reported from MSM lock
 times

---
 src/cssrlib/rtcm.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 3b29e17..44eee1f 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2451,18 +2451,17 @@ class rtcm(cssr, rtcmUtil):
             obs.S[k, :] = cn_
             obs.sat[k] = sat_
 
-            if sat_ in self.lock:
-                for j, ll in enumerate(ll_):
-                    if sig[j] not in self.sig_n:
-                        continue
-                    idx = sig.index(sig[j])
-                    ll_p = self.lock[sat_][j]
-                    if (ll == 0 & ll_p != 0) | ll < ll_p:
-                        obs.lli[k, idx] |= 1
-                    if hf_[j] > 0:
-                        obs.lli[k, idx] |= 3
-
-            self.lock[sat_] = ll_
+            if msm == 1:  # no lock time indicator
+                continue
+
+            lock_p = self.lock.setdefault(sat_, {})
+            for sig_ in self.sig_n[k]:
+                idx = sig.index(sig_)
+                if sig_ in lock_p and ll_[idx] < lock_p[sig_]:
+                    obs.lli[k, idx] |= 1
+                if hf_[idx] > 0:
+                    obs.lli[k, idx] |= 3
+                lock_p[sig_] = ll_[idx]
 
         return i, obs
 
-- 
2.43.0


From 83ff93e756d700adaf2597381a8649d76c8323e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 022/156] fix: carrier phase of GLONASS MSM without frequency
 channel

---
 src/cssrlib/rtcm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 44eee1f..abf508a 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2426,8 +2426,8 @@ class rtcm(cssr, rtcmUtil):
             hf_ = np.zeros(self.nsig, dtype=np.int32)
             cn_ = np.zeros(self.nsig, dtype=np.float64)
 
-            fcn = 0
-            if sys == uGNSS.GLO:
+            fcn = None
+            if sys == uGNSS.GLO and msm in (5, 7):
                 if ex[k] <= 13:
                     fcn = ex[k]-7
 
@@ -2439,7 +2439,8 @@ class rtcm(cssr, rtcmUtil):
                     freq = obs.sig[sys][uTYP.C][idx].frequency(fcn)
 
                 pr_[idx] = pr[j+ofst]+r[k]
-                cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
+                cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT \
+                    if freq is not None else np.nan
                 cn_[idx] = cnr[j+ofst]
                 ll_[idx] = lock[j+ofst]
                 hf_[idx] = half[j+ofst]
-- 
2.43.0


From b31d5500813497897974ffdb8179ce1e8bf2f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 023/156] fix: MSM with more than 64 cells is rejected

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index abf508a..d2110a1 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2308,7 +2308,7 @@ class rtcm(cssr, rtcmUtil):
         sz = self.nsat*self.nsig
 
         if sz > 64:
-            return -1
+            return -1, None
         ncell = 0
         self.sig_n = []
         for k in range(self.nsat):
-- 
2.43.0


From e0d418334e22fd748193e477b049c40caec0357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 024/156] fix: week number of RTCM ephemerides at a week
 rollover

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d2110a1..323a84e 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -797,7 +797,7 @@ class rtcmUtil:
     def adjustweek(self, week: int, tref: gtime_t):
         """ adjust week number considering reference time """
         week_, _ = time2gpst(tref)
-        week_ref = (week_//1024)*1024
+        week_ref = ((week_-(week % 1024)+512)//1024)*1024
         return (week % 1024) + week_ref
 
     def sys2str(self, sys: uGNSS):
-- 
2.43.0


From 1d42d1f7426136520ba759ba61996a3769c1d577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 025/156] fix: GLONASS ephemeris used the x components for all
 axes

---
 src/cssrlib/rtcm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 323a84e..013ac9b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2633,12 +2633,12 @@ class rtcm(cssr, rtcmUtil):
         geph.vel[0] = xd*rCST.P2_20*1e3
         geph.pos[0] = x*rCST.P2_11*1e3
         geph.acc[0] = xdd*rCST.P2_30*1e3
-        geph.vel[1] = xd*rCST.P2_20*1e3
-        geph.pos[1] = x*rCST.P2_11*1e3
-        geph.acc[1] = xdd*rCST.P2_30*1e3
-        geph.vel[2] = xd*rCST.P2_20*1e3
-        geph.pos[2] = x*rCST.P2_11*1e3
-        geph.acc[2] = xdd*rCST.P2_30*1e3
+        geph.vel[1] = yd*rCST.P2_20*1e3
+        geph.pos[1] = y*rCST.P2_11*1e3
+        geph.acc[1] = ydd*rCST.P2_30*1e3
+        geph.vel[2] = zd*rCST.P2_20*1e3
+        geph.pos[2] = z*rCST.P2_11*1e3
+        geph.acc[2] = zdd*rCST.P2_30*1e3
         geph.gamn = gamn*rCST.P2_40
         geph.taun = taun*rCST.P2_30
         geph.dtaun = dtaun*rCST.P2_30
-- 
2.43.0


From 7e5f2965ec63dc55a5ad7677e0df369f05e5383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 026/156] fix: GLONASS ephemeris fields are sign-magnitude
 integers

---
 src/cssrlib/rtcm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 013ac9b..d2d677f 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -800,6 +800,10 @@ class rtcmUtil:
         week_ref = ((week_-(week % 1024)+512)//1024)*1024
         return (week % 1024) + week_ref
 
+    def intS(self, v, n):
+        """ convert from two's complement to n-bit sign-magnitude integer """
+        return v if v >= 0 else -(v+(1 << (n-1)))
+
     def sys2str(self, sys: uGNSS):
         """ convert system enum to string """
         gnss_t = {uGNSS.GPS: "GPS", uGNSS.GLO: "GLO", uGNSS.GAL: "GAL",
@@ -2619,6 +2623,11 @@ class rtcm(cssr, rtcmUtil):
         i += 56
         P3, gamn, P, ln, taun, dtaun = bs.unpack_from('u1s11u2u1s22s5', msg, i)
         i += 42
+        xd, yd, zd = [self.intS(v, 24) for v in (xd, yd, zd)]
+        x, y, z = [self.intS(v, 27) for v in (x, y, z)]
+        xdd, ydd, zdd = [self.intS(v, 5) for v in (xdd, ydd, zdd)]
+        gamn, taun, dtaun = self.intS(gamn, 11), self.intS(taun, 22), \
+            self.intS(dtaun, 5)
         En, P4, Ft, Nt, M, ad, Na, tauc, N4, taugps, ln = bs.unpack_from(
             'u5u1u4u11u2u1u11s32u5s22u1', msg, i)
         i += 102
-- 
2.43.0


From 84e4f49453fa8f6b273665b70557fc01fefd1a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 027/156] fix: health and data source of Galileo F/NAV
 ephemerides

---
 src/cssrlib/rtcm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d2d677f..f1d2f42 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2736,10 +2736,12 @@ class rtcm(cssr, rtcmUtil):
         eph.toc = gpst2time(eph.week, toc)
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
-        eph.svh = (hs << 7)+(dvs << 6)
-        if self.msgtype == 1046:
-            eph.svh |= (hs1 << 1)+(dvs1)
-        eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        if self.msgtype == 1046:  # E5b and E1-B
+            eph.svh = (hs << 7)+(dvs << 6)+(hs1 << 1)+(dvs1)
+            eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        else:  # E5a
+            eph.svh = (hs << 4)+(dvs << 3)
+            eph.code = (1 << 1)+(1 << 8)
         eph.iodc = eph.iode
 
         eph.mode = 0 if self.msgtype == 1046 else 1
-- 
2.43.0


From c614afe89836da6455bffac9a7eac57952f7e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 028/156] fix: clock drift rate of BeiDou and NavIC ephemerides

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f1d2f42..722bee5 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2828,7 +2828,7 @@ class rtcm(cssr, rtcmUtil):
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.iode = aode
         toc *= 8.0
-        eph.af2 = af0*rCST.P2_66
+        eph.af2 = af2*rCST.P2_66
         eph.af1 = af1*rCST.P2_50
         eph.af0 = af0*rCST.P2_33
         eph.iodc = aodc
@@ -2879,7 +2879,7 @@ class rtcm(cssr, rtcmUtil):
         eph.week = week
         eph.af0 = af0*rCST.P2_31
         eph.af1 = af1*rCST.P2_43
-        eph.af2 = af0*rCST.P2_55
+        eph.af2 = af2*rCST.P2_55
         eph.sva = ura
         toc *= 16.0
         eph.tgd = tgd*rCST.P2_31
-- 
2.43.0


From 1712de4fccd9d6815ff5f1719b88dae0fd7b7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 029/156] fix: SBAS ephemeris message decoding

---
 src/cssrlib/rtcm.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 722bee5..2996b42 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -21,7 +21,7 @@ from cssrlib.cssrlib import cssr, sCSSR, prn2sat, sCType, cssre
 from cssrlib.gnss import uGNSS, sat2id, gpst2time, timediff, time2str, sat2prn
 from cssrlib.gnss import uTYP, uSIG, rSigRnx, bdt2time, bdt2gpst, glo2time
 from cssrlib.gnss import time2bdt, gpst2bdt, rCST, time2gpst, utc2gpst, timeadd
-from cssrlib.gnss import gtime_t, sys2str, gpst2utc, sys2char
+from cssrlib.gnss import gtime_t, sys2str, gpst2utc, sys2char, tod2tow
 from crccheck.crc import Crc24LteA
 from enum import IntEnum
 from cssrlib.gnss import Eph, Obs, Geph, Seph
@@ -2928,9 +2928,9 @@ class rtcm(cssr, rtcmUtil):
 
         seph = Seph()
         seph.sat = prn2sat(uGNSS.SBS, svid+119)
-        seph.iode = iodn
+        seph.iodn = iodn
         toc *= 16.0
-        seph.ura = ura
+        seph.sva = ura
         seph.pos[0] = x*0.08
         seph.pos[1] = y*0.08
         seph.pos[2] = z*0.4
@@ -2940,11 +2940,9 @@ class rtcm(cssr, rtcmUtil):
         seph.acc[0] = ax*0.0000125
         seph.acc[1] = ay*0.0000125
         seph.acc[2] = az*0.0000625
-        seph.af0 = af0*self.P2_31
-        seph.af1 = af1*self.P2_40
-        week, tow = time2gpst(self.time)
-        tod = (tow//86400)*86400
-        seph.t0 = gpst2time(week, toc+tod)
+        seph.af0 = af0*rCST.P2_31
+        seph.af1 = af1*rCST.P2_40
+        seph.t0 = tod2tow(toc, self.time)
         seph.mode = 0
 
         return i, seph
-- 
2.43.0


From e7de54da2348b5e24d6c0bd3e24ae06682cc4090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 030/156] fix: width of the cus field in the BeiDou ephemeris
 message

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 2996b42..6a46aa7 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2814,8 +2814,8 @@ class rtcm(cssr, rtcmUtil):
         i += 5+17+11+22+24
         aodc, crs, deln, M0, cuc = bs.unpack_from('u5s18s16s32s18', msg, i)
         i += 5+18+16+32+18
-        e, cus, Asq, toe, cic = bs.unpack_from('u32s16u32u17s18', msg, i)
-        i += 32+16+32+17+18
+        e, cus, Asq, toe, cic = bs.unpack_from('u32s18u32u17s18', msg, i)
+        i += 32+18+32+17+18
         Omg0, cis, i0, crc, omg = bs.unpack_from('s32s18s32s18s32', msg, i)
         i += 32+18+32+18+32
         OMGd, tgd1, tgd2, svh = bs.unpack_from('s24s10s10u1', msg, i)
-- 
2.43.0


From bc000fd6666adf683238ecc06b6f4373cf6aa2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 031/156] fix: incomplete RTCM frames are never accepted

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 6a46aa7..b23d268 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -978,7 +978,7 @@ class rtcm(cssr, rtcmUtil):
         len_ = st.unpack_from('>H', msg, k+1)[0] & 0x3ff
         if len_ < 6:
             return False
-        if maxlen > 0 and k+len_ >= maxlen:
+        if k+len_+6 > (maxlen if maxlen > 0 else len(msg)):
             return False
         cs = Crc24LteA.calc(msg[k:k+len_+6])
         if self.monlevel > 0 and cs != 0:
-- 
2.43.0


From aa9d80e8b653c627da25ee48af586e3f46ea37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 032/156] fix: QZSS L1C pilot signal of Compact SSR

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 5ba9131..04cd597 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -431,7 +431,7 @@ class cssr:
         qzs_tbl = {
             sSigQZS.L1C: uSIG.L1C,
             sSigQZS.L1S: uSIG.L1S,
-            sSigQZS.L1L: uSIG.L1C,
+            sSigQZS.L1L: uSIG.L1L,
             sSigQZS.L1X: uSIG.L1X,
             sSigQZS.L2S: uSIG.L2S,
             sSigQZS.L2L: uSIG.L2L,
-- 
2.43.0


From a64b7b2fbb6bc73719b875b5759556f7914a7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 033/156] fix: Compact SSR bias message without network

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 04cd597..bd3def4 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -807,7 +807,7 @@ class cssr:
             self.udi[sCType.PBIAS] = head['udi']
         ki = 0
         for k in range(self.nsat_n):
-            if not self.isset(v['svmaskn'], self.nsat_n, k):
+            if dfm['net'] and not self.isset(v['svmaskn'], self.nsat_n, k):
                 continue
             sat = self.sat_n[k]
             if dfm['cb']:
-- 
2.43.0


From 0a54567cdc5e54afd2c667e8b22482d3a83ce5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 034/156] fix: SBAS satellites in the Compact SSR mask

---
 src/cssrlib/cssrlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index bd3def4..5760f94 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -610,6 +610,8 @@ class cssr:
             for k in range(0, nsat):
                 if gnss == sGNSS.QZS:
                     prn[k] += 192
+                elif gnss == sGNSS.SBS:
+                    prn[k] += 119
                 elif gnss == sGNSS.BDS3:
                     prn[k] += 18
                 sat = prn2sat(sys, prn[k])
-- 
2.43.0


From 0a2bb95d870b0675456b22df9a3aff8c7e865ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 035/156] fix: Compact SSR messages of another issue than the
 mask are not applied

---
 src/cssrlib/cssrlib.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 5760f94..ba31ec7 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -695,6 +695,8 @@ class cssr:
     def decode_cssr_orb(self, msg, i, inet=0):
         """decode MT4073,2 Orbit Correction message """
         head, i = self.decode_head(msg, i)
+        if self.iodssr != head['iodssr']:
+            return -1
         self.flg_net = False
         self.udi[sCType.ORBIT] = head['udi']
         self.lc[inet].dorb = {}
@@ -713,9 +715,9 @@ class cssr:
         """decode MT4073,3 Clock Correction message """
         head, i = self.decode_head(msg, i)
         self.flg_net = False
+        if self.iodssr != head['iodssr']:
+            return -1
         self.udi[sCType.CLOCK] = head['udi']
-        # if self.iodssr != head['iodssr']:
-        #    return -1
 
         if (self.lc[0].cstat & (1 << sCType.MASK)) != (1 << sCType.MASK):
             return -1
@@ -742,6 +744,8 @@ class cssr:
     def decode_cssr_cbias(self, msg, i, inet=0):
         """decode MT4073,4 Code Bias Correction message """
         head, i = self.decode_head(msg, i)
+        if self.iodssr != head['iodssr']:
+            return -1
         nsat = self.nsat_n
         self.flg_net = False
         self.udi[sCType.CBIAS] = head['udi']
@@ -762,6 +766,8 @@ class cssr:
     def decode_cssr_pbias(self, msg, i, inet=0):
         """decode MT4073,5 Phase Bias Correction message """
         head, i = self.decode_head(msg, i)
+        if self.iodssr != head['iodssr']:
+            return -1
         nsat = self.nsat_n
         self.flg_net = False
         self.udi[sCType.PBIAS] = head['udi']
@@ -786,8 +792,8 @@ class cssr:
         nsat = self.nsat_n
         head, i = self.decode_head(msg, i)
 
-        # if self.iodssr != head['iodssr']:
-        #    return -1
+        if self.iodssr != head['iodssr']:
+            return -1
         dfm = bs.unpack_from_dict('b1b1b1', ['cb', 'pb', 'net'], msg, i)
         self.flg_net = dfm['net']
         i += 3
-- 
2.43.0


From e3ca6ce85ea4a421014025481e084643ad89b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 036/156] fix: issue of the Compact SSR combined message

---
 src/cssrlib/cssrlib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index ba31ec7..24647ee 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1036,11 +1036,13 @@ class cssr:
                 self.set_t0(inet, sat, sCType.CLOCK, self.time)
 
         if dfm['clk']:
-            # self.iodssr_c[sCType.CLOCK] = head['iodssr']
+            if not self.flg_net:
+                self.iodssr_c[sCType.CLOCK] = head['iodssr']
             self.lc[inet].cstat |= (1 << sCType.CLOCK)
 
         if dfm['orb']:
-            # self.iodssr_c[sCType.ORBIT] = head['iodssr']
+            if not self.flg_net:
+                self.iodssr_c[sCType.ORBIT] = head['iodssr']
             self.lc[inet].cstat |= (1 << sCType.ORBIT)
 
         return i
-- 
2.43.0


From d733aaec0bac7eef133d13c8f0e71f85a620e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 037/156] fix: STEC residuals of the gridded correction message

---
 src/cssrlib/cssrlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 24647ee..758bc75 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -956,8 +956,9 @@ class cssr:
         self.lc[inet].s_sz = {}
         
         for sat in self.lc[inet].sat_n:
-            self.lc[inet].dstec[sat] = {}
+            self.lc[inet].dstec[sat] = np.zeros(ng)
             self.lc[inet].s_sz[sat] = sz
+        self.lc[inet].flg_stec |= 1  # stec residual term
 
         self.lc[inet].flg_trop = 3 if dfm['ttype'] > 0 else 0
 
-- 
2.43.0


From 9bd769012830653c1a08913efd77d79cd6973073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 038/156] fix: interpolation next to a grid point

---
 src/cssrlib/cssrlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 758bc75..f532822 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1320,8 +1320,8 @@ class cssr:
         self.inet_ref = self.grid[idx]['nid']
         if r[idx] < self.rngmin:
             self.ngrid = 1
-            self.grid_index = self.grid['gid'][idx]
-            self.grid_weight = [1]
+            self.grid_index = self.grid['gid'][idx:idx+1]
+            self.grid_weight = np.ones(1)
         else:
             idn = self.grid['nid'] == self.inet_ref
             rn = r[idn]
-- 
2.43.0


From 12c200ceb7501d5c059a632d036d97cba99059a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 039/156] fix: frames without subframe head do not overrun the
 L6 buffer

---
 src/cssrlib/cssrlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index f532822..69a4907 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1430,6 +1430,10 @@ class cssr:
             print(f"facility changed: {facility_p} -> {facility}")
             return -1
 
+        if 1695*(self.fcnt+1) > len(self.buff)*8:  # subframe head is missed
+            self.fcnt = -1
+            return -1
+
         copy_buff(msg, self.buff, i, 1695*self.fcnt, 1695)
         self.fcnt = self.fcnt + 1
 
-- 
2.43.0


From 82e4d34625e83755db791d47618fbfbb98bab5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 040/156] fix: HAS clock subset block

---
 src/cssrlib/cssr_has.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index e9577f4..3bfa6d1 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -9,7 +9,7 @@ Galileo HAS correction data decoder
 import numpy as np
 import bitstruct as bs
 import galois
-from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE
+from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, sCType
 from cssrlib.gnss import gpst2time
 from binascii import unhexlify
 
@@ -46,14 +46,16 @@ class cssr_has(cssr):
         for j in range(nclk_sub):
             gnss, dcm = bs.unpack_from('u4u2', msg, i)
             i += 6
-            idx_s = np.where(np.array(self.gnss_n) == gnss)
+            idx_s = np.where(np.array(self.gnss_n) == gnss)[0]
             mask_s = bs.unpack_from('u'+str(self.nsat_g[gnss]), msg, i)[0]
             i += self.nsat_g[gnss]
-            idx, nclk = self.decode_mask(mask_s, self.nsat_g[gnss])
+            idx, nclk = self.decode_mask(mask_s, self.nsat_g[gnss], 0)
             for k in range(nclk):
-                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i) \
-                    * self.dclk_scl*(dcm+1)
-                self.lc[0].dclk[idx_s[idx[k]]] = dclk
+                sat = self.sat_n[idx_s[idx[k]]]
+                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i)[0]
+                self.lc[0].dclk[sat] = self.sval(
+                    dclk, self.dclk_blen, self.dclk_scl)*(dcm+1)
+                self.set_t0(0, sat, sCType.CLOCK, self.time)
                 i += self.dclk_blen
         return i
 
-- 
2.43.0


From 54f3ebf898900c0c1ebbe8e4317d753972b6bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 041/156] fix: network mapping function uses the grid latitude
 in radians

---
 src/cssrlib/cssrlib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 69a4907..eb2120d 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -939,7 +939,8 @@ class cssr:
         
         grid = self.grid[self.grid['nid'] == inet]
         if len(grid)>0:
-            ah, aw = mapfParam(self.time, grid['lat'][0])
+            ah, aw = mapfParam(
+                self.time, np.deg2rad(grid['lat'][0]))
             self.lc[inet].maph = ah
             self.lc[inet].mapw = aw
 
@@ -1071,7 +1072,8 @@ class cssr:
             self.udi[sCType.TROP] = head['udi']
 
             grid = self.grid[self.grid['nid'] == inet]
-            ah, aw = mapfParam(self.time, grid['lat'][0])
+            ah, aw = mapfParam(
+                self.time, np.deg2rad(grid['lat'][0]))
             self.lc[inet].maph = ah
             self.lc[inet].mapw = aw
 
-- 
2.43.0


From dbc5c676289a48b92d5212550801c2c2f498496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 042/156] fix: HAS message of another mask is not applied

---
 src/cssrlib/cssr_has.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 3bfa6d1..e7709c0 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -107,6 +107,8 @@ class cssr_has(cssr):
             self.mask_id = mask_id
             self.subtype = sCSSR.MASK
             i = self.decode_cssr_mask(msg, i)
+        elif mask_id != self.mask_id:  # mask is not available
+            return False
         if (flags >> 4) & 1:  # orbit block
             self.subtype = sCSSR.ORBIT
             i = self.decode_cssr_orb(msg, i)
-- 
2.43.0


From 4c23a5acc70fd601568b0be35fbd612d15921f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 043/156] fix: circular MADOCA-PPP areas

---
 src/cssrlib/cssr_mdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 30c1b11..f031fff 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -77,7 +77,7 @@ class cssr_mdc(cssr):
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
                     de = (lond - p.lonr)*rCST.D2R * \
-                        rCST.RE_WGS84*np.cos(p.lonr*rCST.D2R)
+                        rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
                     if r <= p.rng:
                         self.reg = reg
-- 
2.43.0


From 604a7081047c3ee6d444f903080a7b082d5f2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 044/156] fix: validity check with satellites without
 corrections

---
 src/cssrlib/cssrlib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index eb2120d..77c59ce 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1221,10 +1221,14 @@ class cssr:
     def check_validity(self, time):
         """ check validity time of correction """
         for sat in self.sat_n:
-            if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
+            if sat not in self.lc[0].t0:  # no correction received
+                continue
+            if self.lc[0].dclk is not None and \
+                    timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
-            if timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
+            if self.lc[0].dorb is not None and \
+                    timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
                     self.tmax[sCType.ORBIT]:
                 self.lc[0].iode[sat] = -1
                 self.lc[0].dorb[sat] = np.zeros(3)
-- 
2.43.0


From 8135b769aac4385f8be15e6b1a8e0b1a6e7c39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 045/156] fix: rates are not added to the stored orbit
 correction

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 5a1c699..8b2b744 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -356,7 +356,7 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
 
-                dorb += cs.lc[0].dvel[sat] * \
+                dorb = dorb + cs.lc[0].dvel[sat] * \
                     (timediff(t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
             if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
@@ -588,7 +588,7 @@ def satposs(obs, nav, cs=None, orb=None):
                 dorb = cs.lc[0].dorb[sat]  # radial,along-track,cross-track
 
                 if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                    dorb += cs.lc[0].dvel[sat] * \
+                    dorb = dorb + cs.lc[0].dvel[sat] * \
                         (timediff(obs.t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
                 if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
-- 
2.43.0


From a802b7aefe3ba999055558718c9a2cd60c5d72cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 046/156] fix: satellite without clock correction in satpos

---
 src/cssrlib/ephemeris.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 8b2b744..89c5194 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -385,6 +385,9 @@ def satpos(sat, t, nav, cs=None, orb=None):
                     else:
                         return rs, vs, dts, svh
 
+                if cs.lc[0].dclk is None or sat not in cs.lc[0].dclk:
+                    return rs, vs, dts, svh
+
                 dclk = cs.lc[0].dclk[sat]
 
                 if cs.lc[0].cstat & (1 << sCType.HCLOCK) and \
@@ -618,7 +621,7 @@ def satposs(obs, nav, cs=None, orb=None):
                             else:
                                 continue
 
-                    if sat in cs.lc[0].dclk:
+                    if cs.lc[0].dclk is not None and sat in cs.lc[0].dclk:
                         dclk = cs.lc[0].dclk[sat]
                     else:
                         continue
-- 
2.43.0


From ad3e32327b4c01d337c1a7212b0389b38f19aed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 047/156] fix: group delay of single frequency positioning for
 GLONASS

---
 src/cssrlib/ephemeris.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 89c5194..da8668f 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -476,7 +476,8 @@ def satpos(sat, t, nav, cs=None, orb=None):
                                sc.DGPS) and sys == uGNSS.GPS:
                 dts[i] -= eph.tgd
 
-        elif nav.smode == 1 and nav.nf == 1:  # standalone positioning
+        elif nav.smode == 1 and nav.nf == 1 and \
+                sys != uGNSS.GLO:  # standalone positioning
             dts[i] -= eph.tgd
 
     if cs is not None:
@@ -727,7 +728,8 @@ def satposs(obs, nav, cs=None, orb=None):
                 nav.dorb[sat] = dorb_
                 nav.dclk[sat] = dclk
 
-            elif nav.smode == 1 and nav.nf == 1:  # stand-alone positioning
+            elif nav.smode == 1 and nav.nf == 1 and \
+                    sys != uGNSS.GLO:  # stand-alone positioning
                 dts[i] -= eph.tgd
 
             nsat += 1
-- 
2.43.0


From 66c7d66c2c6c5c7563da62d1edbeabddff31eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 048/156] fix: velocity of BeiDou GEO satellites, rates of CNAV
 parameters

---
 src/cssrlib/ephemeris.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index da8668f..313e3fa 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -212,21 +212,29 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
 
     if flg_v:  # satellite velocity
         qq = np.array([si*sOmg, -si*cOmg, ci])
-        Ed = n/nue
+        nd = n
+        if eph.mode > 0:
+            nd += 0.5*dt*eph.delnd
+        Ed = nd/nue
         nud = np.sqrt(1.0-eph.e**2)/nue*Ed
         h2d = 2.0*nud*np.array([-h[1], h[0]])
         ud = nud+np.array([eph.cuc, eph.cus])@h2d
         rd = Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
+        if eph.mode > 0:
+            rd += eph.Adot*nue
 
         hd = np.array([-h[1], h[0]])
         xod = rd*h+(r*ud)*hd
         incd = eph.idot+np.array([eph.cic, eph.cis])@h2d
-        omegd = eph.OMGd-omge
+        geo = sys == uGNSS.BDS and (prn <= 5 or prn >= 59)
+        omegd = eph.OMGd if geo else eph.OMGd-omge
 
         pd = np.array([-p[1], p[0], 0])*omegd
         qd = np.array([-q[1], q[0], 0])*omegd+qq*incd
 
         vs = xo@np.array([pd, qd])+xod@np.array([p, q])
+        if geo:
+            vs = Mo@vs+omge*np.array([rs[1], -rs[0], 0.0])
         return rs, vs, dts
 
     return rs, dts
-- 
2.43.0


From da723469108f6110a40ab299d7ad1e9efe83db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 049/156] fix: week number of Yuma almanacs is modulo 1024

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 313e3fa..28ebfd4 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -851,9 +851,9 @@ def loadyuma(fname, sys=uGNSS.GPS):
                 alm.af1 = float(v[1])
             elif v[0] == 'week':
                 alm.week = int(v[1])
-                alm.week += week_ref//1023*1023
+                alm.week += week_ref//1024*1024
                 if alm.week > week_ref:
-                    alm.week -= 1023
+                    alm.week -= 1024
 
                 alm.sattype = 0
                 if sys == uGNSS.GPS or sys == uGNSS.QZS:
-- 
2.43.0


From 442fb86ed76e35c8efe0ec20d1cee15ce958b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 050/156] fix: rate of the harmonic terms of the satellite
 velocity

---
 src/cssrlib/ephemeris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 28ebfd4..2ed2616 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -217,7 +217,7 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
             nd += 0.5*dt*eph.delnd
         Ed = nd/nue
         nud = np.sqrt(1.0-eph.e**2)/nue*Ed
-        h2d = 2.0*nud*np.array([-h[1], h[0]])
+        h2d = 2.0*nud*np.array([-h2[1], h2[0]])
         ud = nud+np.array([eph.cuc, eph.cus])@h2d
         rd = Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
         if eph.mode > 0:
-- 
2.43.0


From 42fb4142b55a87f0d2e858857ecd06509df3ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 051/156] fix: accept a HAS clock subset before the first full
 clock block

---
 src/cssrlib/cssr_has.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index e7709c0..f3eb8d0 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -41,6 +41,8 @@ class cssr_has(cssr):
         if self.iodssr != head['iodssr']:
             return -1
 
+        if self.lc[0].dclk is None:
+            self.lc[0].dclk = {}
         nclk_sub = bs.unpack_from('u4', msg, i)[0]
         i += 4
         for j in range(nclk_sub):
-- 
2.43.0


From 7d2223c5800c29bbb26e8a6fe3dabf3c717712cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 052/156] fix: use just as many HAS pages as the message has

---
 src/cssrlib/cssr_has.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index f3eb8d0..e145be1 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -168,8 +168,9 @@ class cnav_msg():
     def decode_has_page(self, idx, has_pages, gMat, ms):
         """ HPVRS decoding for RS(255,32,224) """
         HASmsg = bytes()
-        k = len(idx)
-        if k >= ms:
+        if len(idx) >= ms:
+            idx = idx[:ms]
+            k = ms
             Wd = self.GF(has_pages[idx, :])  # kx53
             Dinv = np.linalg.inv(self.GF(gMat[idx, :k]))  # kxk
             Md = Dinv@Wd  # decoded message (kx53)
-- 
2.43.0


From f5ea74fa1e48d3304737adadeb34c3e42e57913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 053/156] fix: restart the HAS page time-out with every new
 message

---
 src/cssrlib/cssr_has.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index e145be1..7dae17e 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -206,6 +206,7 @@ class cnav_msg():
             if self.mid_ == -1 and mid not in self.mid_decoded:
                 self.mid_ = mid
                 self.ms_ = ms
+                self.icnt = 0
             if mid == self.mid_ and pid-1 not in self.rec:
                 page = bs.unpack_from('u8'*53, buff, i)
                 self.rec += [pid-1]
-- 
2.43.0


From d07e969c5e1beda0a8f5b2f6d0559e28a9573727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 054/156] fix: ignore HAS pages with the reserved page id 0

---
 src/cssrlib/cssr_has.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 7dae17e..6095936 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -199,6 +199,9 @@ class cnav_msg():
             # pid: id of the transmitted HAS encoded page
             mt, mid, ms, pid = bs.unpack_from('u2u5u5u8', buff, i)
 
+            if pid == 0:  # reserved
+                continue
+
             self.msgtype = mt
             ms += 1
             i += 20
-- 
2.43.0


From e2265f0eb3ec423395b6afa7723bf17b4a7dd5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 055/156] fix: skip the code biases of BDS PPP satellites
 outside the mask

---
 src/cssrlib/cssr_bds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index e64ff58..53d986b 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -250,6 +250,7 @@ class cssr_bds(cssr):
             sys, prn = self.slot2prn(slot)
             sat = prn2sat(sys, prn)
             if sat not in sat_n:
+                i += nsig*(4+self.cb_blen)
                 continue
             if sat not in self.lc[inet].t0:
                 self.lc[inet].t0[sat] = {}
-- 
2.43.0


From 280582d2a2e18e92eb9c42d49843bf01208987a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 056/156] fix: keep the previous IOD SSR on a new BDS PPP mask

---
 src/cssrlib/cssr_bds.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 53d986b..b09890e 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -99,9 +99,6 @@ class cssr_bds(cssr):
         self.tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
         i += 23
 
-        if st == sCSSR.MASK:
-            self.iodssr = iodssr
-
         if self.tow0 >= 0:
             self.tow = self.tow0+self.tod
             if self.week >= 0:
-- 
2.43.0


From 19583c821dc580505d66ceb8e88913d1fd08011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 057/156] fix: BDS PPP combined messages 6 and 7

---
 src/cssrlib/cssr_bds.py | 59 ++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index b09890e..bca9e7a 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -280,6 +280,9 @@ class cssr_bds(cssr):
         # note: the sign of the clock correction reversed
         self.lc[inet].dclk[sat] = - \
             self.sval(dclk, self.dclk_blen, self.dclk_scl)
+        if sat not in self.lc[inet].t0:
+            self.lc[inet].t0[sat] = {}
+        self.lc[inet].t0[sat][sCType.CLOCK] = self.time
         return i
 
     def decode_cssr_clk(self, msg, i, inet=0):
@@ -298,9 +301,6 @@ class cssr_bds(cssr):
             if idx < self.nsat_n:
                 sat = self.sat_n[idx]
                 i = self.decode_cssr_clk_sat(msg, i, inet, sat)
-                if sat not in self.lc[inet].t0:
-                    self.lc[inet].t0[sat] = {}
-                self.lc[inet].t0[sat][sCType.CLOCK] = self.time
 
         self.iodssr_c[sCType.CLOCK] = head['iodssr']
         self.lc[inet].cstat |= (1 << sCType.CLOCK)
@@ -332,45 +332,62 @@ class cssr_bds(cssr):
     def decode_cssr_comb1(self, msg, i, inet=0):
         """decode MT6 combined message #1 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
-        sat_n = np.array(self.sat_n)
+        i += 8
 
         if numc > 0:
-            tod, _, iodssr, iodp, slot_s = \
-                bs.unpack_from('u17u4u2u4u9', msg, i)
-            i += 36
+            head, i = self.decode_head(msg, i)
+            iodp, slot_s = bs.unpack_from('u4u9', msg, i)
+            i += 13
+            valid = self.iodssr == head['iodssr'] and self.iodp == iodp
             for k in range(numc):
                 idx = slot_s+k
-                sat = self.sat_n[idx]
-                i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+                if not valid or idx >= self.nsat_n:
+                    i += 3+self.dclk_blen
+                    continue
+                i = self.decode_cssr_clk_sat(msg, i, inet, self.sat_n[idx])
+            if valid:
+                self.iodssr_c[sCType.CLOCK] = head['iodssr']
+                self.lc[inet].cstat |= (1 << sCType.CLOCK)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numo):
-                i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+            i = self.decode_cssr_comb_orb(msg, i, numo, inet)
+
+        return i
 
+    def decode_cssr_comb_orb(self, msg, i, numo, inet=0):
+        """ decode orbit part of MT6,7 combined messages """
+        head, i = self.decode_head(msg, i)
+        if self.iodssr != head['iodssr']:
+            return -1
+        for k in range(numo):
+            i = self.decode_cssr_orb_sat(msg, i, inet, np.array(self.sat_n))
+        self.iodssr_c[sCType.ORBIT] = head['iodssr']
+        self.lc[inet].cstat |= (1 << sCType.ORBIT)
         return i
 
     def decode_cssr_comb2(self, msg, i, inet=0):
         """decode MT7 combined message #2 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
-        sat_n = np.array(self.sat_n)
+        i += 8
 
         if numc > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
+            head, i = self.decode_head(msg, i)
+            valid = self.iodssr == head['iodssr']
             for k in range(numc):
-                slot = bs.unpack_from('u9', msg, i)
+                slot = bs.unpack_from('u9', msg, i)[0]
                 i += 9
                 sys, prn = self.slot2prn(slot)
                 sat = prn2sat(sys, prn)
+                if not valid or sat not in self.sat_n:
+                    i += 3+self.dclk_blen
+                    continue
                 i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+            if valid:
+                self.iodssr_c[sCType.CLOCK] = head['iodssr']
+                self.lc[inet].cstat |= (1 << sCType.CLOCK)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numo):
-                i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+            i = self.decode_cssr_comb_orb(msg, i, numo, inet)
 
         return i
 
-- 
2.43.0


From e3c3ace870a7a7e1c0ab3be967fd53fae5aa0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 058/156] fix: check the IODP of BDS PPP URA messages

---
 src/cssrlib/cssr_bds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index bca9e7a..9a9f69c 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -316,6 +316,8 @@ class cssr_bds(cssr):
 
         iodp, st2 = bs.unpack_from('u4u3', msg, i)
         i += 7
+        if iodp != self.iodp:
+            return i + 70*6
 
         for k in range(70):
             v = bs.unpack_from_dict('u3u3', ['class', 'val'], msg, i)
-- 
2.43.0


From 5205f172a574abe78cc4ef6e406fb89b76d7666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 059/156] fix: BDS PPP satellites without matching clock
 correction have no position

---
 src/cssrlib/ephemeris.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 2ed2616..7b7f47e 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -369,9 +369,9 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
 
-                if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c[sat]:
+                if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c.get(sat):
                     dclk = cs.lc[0].dclk[sat]
-                elif cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p[sat]:
+                elif cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p.get(sat):
                     dclk = cs.lc[0].dclk_p[sat]
                 else:
                     return rs, vs, dts, svh
@@ -605,10 +605,10 @@ def satposs(obs, nav, cs=None, orb=None):
 
                 if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
 
-                    if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c[sat]:
+                    if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c.get(sat):
                         dclk = cs.lc[0].dclk[sat]
                     else:
-                        if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p[sat]:
+                        if cs.lc[0].iodc[sat] == cs.lc[0].iodc_c_p.get(sat):
                             dclk = cs.lc[0].dclk_p[sat]
                         else:
                             continue
-- 
2.43.0


From c29f89cd482f48456edae34aff7dd47618636f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 060/156] fix: use the default navigation message for systems
 without entry in nav_mode

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 7b7f47e..d8905df 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -412,7 +412,7 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             # Select broadcast navigation type depending on GNSS type
             #
-            mode = cs.nav_mode[sys]
+            mode = cs.nav_mode.get(sys, 0)
 
         else:
 
@@ -647,7 +647,7 @@ def satposs(obs, nav, cs=None, orb=None):
                 if np.isnan(dclk) or np.isnan(dorb@dorb):
                     continue
 
-                mode = cs.nav_mode[sys]
+                mode = cs.nav_mode.get(sys, 0)
 
             else:
 
-- 
2.43.0


From db912da158bda04a446c9ac89e6cdd2ef81b6b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 061/156] fix: size the SSR arrays of Nav for the last
 satellite number

---
 src/cssrlib/gnss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 5b3d6fe..fbe8254 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -926,10 +926,10 @@ class Nav():
         self.rcv_ant_b = None
 
         # SSR correction placeholder
-        self.dorb = np.zeros(uGNSS.MAXSAT)
-        self.dclk = np.zeros(uGNSS.MAXSAT)
-        self.dsis = np.zeros(uGNSS.MAXSAT)
-        self.sis = np.zeros(uGNSS.MAXSAT)
+        self.dorb = np.zeros(uGNSS.MAXSAT+1)
+        self.dclk = np.zeros(uGNSS.MAXSAT+1)
+        self.dsis = np.zeros(uGNSS.MAXSAT+1)
+        self.sis = np.zeros(uGNSS.MAXSAT+1)
 
         # Satellite observation status
         self.fix = np.zeros((uGNSS.MAXSAT, self.nf), dtype=int)
-- 
2.43.0


From e23ed3444457d5e564cf5d38d7c95877642cea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 062/156] fix: satposs without any observation

---
 src/cssrlib/ephemeris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index d8905df..c2fe48f 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -742,7 +742,7 @@ def satposs(obs, nav, cs=None, orb=None):
 
             nsat += 1
 
-    if cs is not None:
+    if cs is not None and n > 0:
         if sat in cs.lc[0].t0 and sCType.ORBIT in cs.lc[0].t0[sat]:
             nav.time_p = cs.lc[0].t0[sat][sCType.ORBIT]
 
-- 
2.43.0


From c8e024a01ade4085b7e0d84cf25f44688ee3c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 063/156] fix: range of circular MADOCA-PPP areas is in km

---
 src/cssrlib/cssr_mdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index f031fff..cc3008f 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -79,7 +79,7 @@ class cssr_mdc(cssr):
                     de = (lond - p.lonr)*rCST.D2R * \
                         rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
-                    if r <= p.rng:
+                    if r <= p.rng*1e3:
                         self.reg = reg
                         self.area = area
                         break
-- 
2.43.0


From 2e34a76d32442b7964df6a65ffee07fe491b6e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 064/156] fix: MADOCA-PPP areas at western longitudes

---
 src/cssrlib/cssr_mdc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index cc3008f..d0bc37f 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -68,15 +68,16 @@ class cssr_mdc(cssr):
         for reg in self.pnt.keys():
             for area in self.pnt[reg].keys():
                 p = self.pnt[reg][area]
+                dlon = (lond-p.lonr+180.0) % 360.0-180.0
                 if p.sid == 0:  # rectangle shape:
                     if p.latr-p.lats <= latd and latd <= p.latr+p.lats and \
-                            p.lonr-p.lons <= lond and lond <= p.lonr+p.lons:
+                            -p.lons <= dlon and dlon <= p.lons:
                         self.reg = reg
                         self.area = area
                         break
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
-                    de = (lond - p.lonr)*rCST.D2R * \
+                    de = dlon*rCST.D2R * \
                         rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
                     if r <= p.rng*1e3:
@@ -96,7 +97,7 @@ class cssr_mdc(cssr):
         latd, lond = np.rad2deg(pos[0:2])
         p = self.pnt[self.reg][self.area]
         dlat = latd - p.latr
-        dlon = lond - p.lonr
+        dlon = (lond-p.lonr+180.0) % 360.0-180.0
 
         return dlat, dlon
 
-- 
2.43.0


From ff4414f680eb1ddb001a6b6259e32c7ffe3511ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 065/156] fix: eph2clk: subtract the clock offset once from the
 transmission time

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index c2fe48f..ba901a3 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -242,9 +242,9 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
 
 def eph2clk(time, eph):
     """ calculate clock offset based on ephemeris """
-    t = timediff(time, eph.toc)
+    t = ts = timediff(time, eph.toc)
     for _ in range(2):
-        t -= eph.af0+eph.af1*t+eph.af2*t**2
+        t = ts-(eph.af0+eph.af1*t+eph.af2*t**2)
     dts = eph.af0+eph.af1*t+eph.af2*t**2
     return dts
 
-- 
2.43.0


From cc9f2793e17ce81ebe3667e5354cefb03e7ea034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 066/156] fix: GLONASS FDMA frequencies of both satellites in
 single differences

---
 src/cssrlib/pppssr.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4c7bc59..c26e7d1 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -858,18 +858,20 @@ class pppos():
                     #
                     if f < nf:  # carrier
                         sig = obs.sig[sys][uTYP.L][f]
-                        if sys == uGNSS.GLO:
-                            freq = sig.frequency(self.nav.glo_ch[sat[j]])
-                        else:
-                            freq = sig.frequency()
-                        mu = -(freq0/freq)**2
                     else:  # code
                         sig = obs.sig[sys][uTYP.C][f % nf]
-                        if sys == uGNSS.GLO:
-                            freq = sig.frequency(self.nav.glo_ch[sat[j]])
-                        else:
-                            freq = sig.frequency()
-                        mu = +(freq0/freq)**2
+
+                    if sys == uGNSS.GLO:
+                        freqi = sig.frequency(self.nav.glo_ch[sat[i]])
+                        freqj = sig.frequency(self.nav.glo_ch[sat[j]])
+                    else:
+                        freqi = sig.frequency()
+                        freqj = freqi
+
+                    mui = (freq0/freqi)**2
+                    muj = (freq0/freqj)**2
+                    if f < nf:  # carrier
+                        mui, muj = -mui, -muj
 
                     # Skip edited observations
                     #
@@ -930,16 +932,16 @@ class pppos():
                         #
                         idx_i = self.II(sat[i], self.nav.na)
                         idx_j = self.II(sat[j], self.nav.na)
-                        H[nv, idx_i] = +mu
-                        H[nv, idx_j] = -mu
-                        v[nv] -= mu*(x[idx_i] - x[idx_j])
+                        H[nv, idx_i] = +mui
+                        H[nv, idx_j] = -muj
+                        v[nv] -= mui*x[idx_i] - muj*x[idx_j]
 
                         if self.nav.monlevel > 2:
                             self.nav.fout.write(
                                 fmt_ion
                                 .format(time2str(obs.t),
                                         sat2id(sat[i]), sat2id(sat[j]),
-                                        sig, idx_i, idx_j, mu,
+                                        sig, idx_i, idx_j, muj,
                                         x[idx_i], x[idx_j],
                                         np.sqrt(self.nav.P[idx_i, idx_i]),
                                         np.sqrt(self.nav.P[idx_j, idx_j])))
@@ -960,7 +962,7 @@ class pppos():
 
                         H[nv, idx_i] = +lami
                         H[nv, idx_j] = -lamj
-                        v[nv] -= lami*(x[idx_i] - x[idx_j])
+                        v[nv] -= lami*x[idx_i] - lamj*x[idx_j]
 
                         # measurement variance
                         Ri[nv] = self.varerr(self.nav, el[i], f)
-- 
2.43.0


From ba36802e4fe68285dd1756e76c15f71a8f0fa3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 067/156] fix: index of the troposphere state without
 ionosphere states

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index c26e7d1..e3aa061 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -259,7 +259,7 @@ class pppos():
 
     def IT(self, na):
         """ return index of zenith tropospheric delay estimate """
-        return na-uGNSS.MAXSAT-1
+        return na-self.nav.niono-1
 
     def varerr(self, nav, el, f):
         """ variation of measurement """
-- 
2.43.0


From 3f95d9e9dab5c727a59c7ff1d0835a02f9a45f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 068/156] fix: one pseudorange row per satellite in standalone
 positioning

---
 src/cssrlib/pntpos.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 6793ae8..a5822b3 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -399,8 +399,7 @@ class stdpos(pppos):
             Covariance matrix of single-difference measurements
         """
 
-        nf = self.nav.nf if self.nav.rmode == 0 else 1
-        # number of frequencies (or signals)
+        nf = 1  # number of frequencies (or signals), see zdres()
 
         ns = len(el)  # number of satellites
         nc = len(obs.sig.keys())  # number of constellations
-- 
2.43.0


From c110a80792c09b7610cbaa7075d3e1df0d9c3026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 069/156] fix: process noise of the ionosphere states without
 troposphere state

---
 src/cssrlib/pppssr.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index e3aa061..3e3760a 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -204,10 +204,7 @@ class pppos():
 
         if self.nav.iono_opt == 1:  # iono is estimated
             # Iono delay
-            if self.nav.pmode >= 1:  # kinematic
-                self.nav.q[7:7+uGNSS.MAXSAT] = self.nav.sig_qion**2
-            else:
-                self.nav.q[4:4+uGNSS.MAXSAT] = self.nav.sig_qion**2
+            self.nav.q[self.nav.nq-uGNSS.MAXSAT:] = self.nav.sig_qion**2
 
         # ambiguity
         if self.nav.pmode >= 1:  # kinematic
-- 
2.43.0


From 925842af22165ff07ebe4e693c10a285384676d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 070/156] fix: edit observations which are not a number

---
 src/cssrlib/pppssr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 3e3760a..53eb121 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1300,7 +1300,7 @@ class pppos():
 
                 # Check for measurement consistency
                 #
-                if obs.P[j, f] == 0.0:
+                if obs.P[j, f] == 0.0 or np.isnan(obs.P[j, f]):
                     self.nav.edt[i, f] = 1
                     if self.nav.monlevel > 0:
                         self.nav.fout.write(
@@ -1310,7 +1310,7 @@ class pppos():
                                     sigsPR[f].str()))
                     continue
 
-                if obs.L[j, f] == 0.0:
+                if obs.L[j, f] == 0.0 or np.isnan(obs.L[j, f]):
                     self.nav.edt[i, f] = 1
                     if self.nav.monlevel > 0:
                         self.nav.fout.write(
-- 
2.43.0


From bd04a0bf17a67649c15b008d0671d4f8c949e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 071/156] fix: size of the geometry-free history

---
 src/cssrlib/gnss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index fbe8254..751d501 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -940,8 +940,8 @@ class Nav():
         self.vsat = np.zeros((uGNSS.MAXSAT, self.nf), dtype=int)
 
         # geometry-free combination for cycle-slip detection
-        self.gf = np.zeros(uGNSS.MAXSAT)
-        self.gf_r = np.zeros(uGNSS.MAXSAT)
+        self.gf = np.zeros(uGNSS.MAXSAT+1)
+        self.gf_r = np.zeros(uGNSS.MAXSAT+1)
 
         self.tt = 0
         self.t = gtime_t()
-- 
2.43.0


From 8b1f9a8205f216213f3d4623b3e2551b4aa7d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 072/156] fix: tide displacement must not accumulate in the
 base coordinates

---
 src/cssrlib/pppssr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 53eb121..247aa59 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -506,7 +506,7 @@ class pppos():
         y = np.zeros((n, nf*2))
         el = np.zeros(n)
         e = np.zeros((n, 3))
-        rr_ = rr.copy()
+        rr_ = np.array(rr, dtype=float)
 
         # Solid Earth tide corrections
         #
@@ -1194,7 +1194,7 @@ class pppos():
             if self.nav.pmode > 0:
                 rr_ += self.nav.x[3:6]*tt
         else:
-            rr_ = rr
+            rr_ = np.array(rr, dtype=float)
 
         # Solid Earth tide corrections
         #
-- 
2.43.0


From 6e2801244d7235763b75f0984c30ab03902aa657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 073/156] fix: keep rover edits and cycle slips when editing
 the base observations

---
 src/cssrlib/rtk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtk.py b/src/cssrlib/rtk.py
index 2949f78..9cd5dbb 100644
--- a/src/cssrlib/rtk.py
+++ b/src/cssrlib/rtk.py
@@ -33,8 +33,11 @@ class rtkpos(pppos):
             obsb, None, None, rsb, vsb, dtsb, self.nav.rb, 0)
 
         # Editing observations (base/rover)
+        # NOTE: rover has been edited already in process()
+        edt_u = self.nav.edt
+        sat_ed_u = [s for s in obs.sat if not np.any(edt_u[s-1, :] > 0)]
         sat_ed_r = self.qcedit(obsb, rsb, dtsb, svhb, rr=self.nav.rb)
-        sat_ed_u = self.qcedit(obs, rs, dts, svh)
+        self.nav.edt = np.maximum(edt_u, self.nav.edt)
 
         # define common satellite between base and rover
         sat_ed = np.intersect1d(sat_ed_u, sat_ed_r, True)
-- 
2.43.0


From 3933637025d95a6ae704418787b543724c66b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 074/156] fix: clock reset of standalone positioning

---
 src/cssrlib/pntpos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index a5822b3..33a6157 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -564,8 +564,9 @@ class stdpos(pppos):
         if abs(np.mean(v)) > self.nav.th_clk_rst:  # clock bias initialize/reset
             ic = self.ICB()
             idx_ = np.where(v != 0.0)[0]
-            xp[ic] = np.mean(v[idx_])
-            v[idx_] -= xp[ic]
+            dclk = np.mean(v[idx_])
+            xp[ic] += dclk
+            v[idx_] -= dclk
             if self.monlevel > 0:
                 print("{:s} clock reset.".format(time2str(obs.t)))
 
-- 
2.43.0


From f02193ef1d49ba34115882b29f8dabcf2e43b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 075/156] fix: continuation lines of the list of observation
 types

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 332823b..1896755 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -838,7 +838,7 @@ class rnxdec:
                 # Extract string list of signal codes
                 #
                 sigs = line[7:60].split()
-                for _ in range(int(nsig/14)):
+                for _ in range((nsig-1)//13):
                     line2 = self.fobs.readline()
                     sigs += line2[7:60].split()
 
-- 
2.43.0


From c6576da63dfc55b2dccaf040b91b68036ba0efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 076/156] fix: observation arrays when systems have different
 numbers of signals

---
 src/cssrlib/rinex.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 1896755..a1746b0 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -919,16 +919,11 @@ class rnxdec:
                     prn += 100
                 sat = prn2sat(sys, prn)
 
-                pr = np.zeros(len(self.getSignals(sys, uTYP.C)),
-                              dtype=np.float64)
-                cp = np.zeros(len(self.getSignals(sys, uTYP.L)),
-                              dtype=np.float64)
-                ll = np.zeros(len(self.getSignals(sys, uTYP.L)),
-                              dtype=np.int32)
-                dp = np.zeros(len(self.getSignals(sys, uTYP.D)),
-                              dtype=np.float64)
-                cn = np.zeros(len(self.getSignals(sys, uTYP.S)),
-                              dtype=np.float64)
+                pr = np.zeros(self.nsig[uTYP.C], dtype=np.float64)
+                cp = np.zeros(self.nsig[uTYP.L], dtype=np.float64)
+                ll = np.zeros(self.nsig[uTYP.L], dtype=np.int32)
+                dp = np.zeros(self.nsig[uTYP.D], dtype=np.float64)
+                cn = np.zeros(self.nsig[uTYP.S], dtype=np.float64)
 
                 for i, sig in self.sig_map[sys].items():
 
-- 
2.43.0


From c4b5d4df933ea6305e7c2d652b4a922260d0773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 077/156] fix: loss of lock flag of RINEX observations is bit 0
 of the LLI

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index a1746b0..d82c0a0 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -941,7 +941,7 @@ class rnxdec:
                     # Convert from string to numerical value
                     #
                     val = 0.0 if not sval else float(sval)
-                    lli = 1 if slli == '1' else 0
+                    lli = 1 if slli in ('1', '3', '5', '7') else 0
 
                     # Signal index in data structure
                     #
-- 
2.43.0


From cfaff1792b3e18a6d38e8eadb0e8968f3326508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 078/156] fix: skip event records of RINEX observation files

---
 src/cssrlib/rinex.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index d82c0a0..8761c68 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -877,6 +877,12 @@ class rnxdec:
 
             nsat = int(line[32:35])
 
+            # skip special event records
+            if line[31] not in ('0', '1'):
+                for _ in range(nsat):
+                    self.fobs.readline()
+                continue
+
             year = int(line[2:6])
             month = int(line[7:9])
             day = int(line[10:12])
-- 
2.43.0


From 3def85e52c42e06cbd78ed33b43ad5989c9fc8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 079/156] fix: stop synchronizing observations at the end of a
 file

---
 src/cssrlib/rinex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 8761c68..2fcf748 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -990,6 +990,8 @@ def sync_obs(dec, decb, dt_th=0.1):
     obs = dec.decode_obs()
     obsb = decb.decode_obs()
     while True:
+        if obs.t.time == 0 or obsb.t.time == 0:  # end of file
+            break
         dt = timediff(obs.t, obsb.t)
         if np.abs(dt) <= dt_th:
             break
-- 
2.43.0


From e39e070d3ae79bad0313b0bc537d5f430e1d8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 080/156] fix: list of observation types with 13, 26 or more
 signals

---
 src/cssrlib/rinex.py | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 2fcf748..45668e4 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1101,37 +1101,19 @@ class rnxenc:
 
             fh.write("{:1s}  {:3d}".format(sys_t[sys], nsig))
 
-            n = 0
+            sigs = []
             for k, _ in enumerate(pr):
-                fh.write(" {:3s}".format(pr[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
-                fh.write(" {:3s}".format(cp[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
+                sigs += [pr[k].str(), cp[k].str()]
                 if uTYP.D in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(dp[k].str()))
-                    n += 1
-                    if n == 13:
-                        fh.write("  {:20s}\n{:6s}".format(
-                            "SYS / # / OBS TYPES", ""))
-
+                    sigs.append(dp[k].str())
                 if uTYP.S in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(cn[k].str()))
-                    n += 1
-
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-                elif n >= nsig-1:
-                    fh.write("  {:s}".format("    "*(13-(nsig % 13))))
-                    fh.write("{:20s}".format("SYS / # / OBS TYPES \n"))
+                    sigs.append(cn[k].str())
+
+            for k in range(0, len(sigs), 13):
+                if k > 0:
+                    fh.write("{:6s}".format(""))
+                s = "".join(" {:3s}".format(sig) for sig in sigs[k:k+13])
+                fh.write("{:54s}{:20s}\n".format(s, "SYS / # / OBS TYPES"))
 
         # TBD
         ep = time2epoch(ts)
-- 
2.43.0


From 5e51bd3efbb7771e3be4e6817ba5bdec7673b680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 081/156] fix: group delays, reference time and issue of data
 of NavIC navigation records

---
 src/cssrlib/rinex.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 45668e4..f051689 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -577,7 +577,8 @@ class rnxdec:
             line = fnav.readline()  # line #3
             if sys == uGNSS.IRN and self.mode_nav == 2:
                 eph.iode = int(self.flt(line, 0))
-                eph.iode = eph.iodc
+                eph.iodc = eph.iode
+                eph.week, eph.toes = time2gpst(eph.toc)
             else:
                 if (sys == uGNSS.GPS or sys == uGNSS.QZS) and \
                         self.mode_nav > 0:  # CNAV, CNAV/2
@@ -633,9 +634,9 @@ class rnxdec:
                     eph.urai = self.flt(line, 0)
                 eph.svh = int(self.flt(line, 1))
                 if self.mode_nav == 2 and eph.integ == 1:
-                    eph.tgd = int(self.flt(line, 3))
+                    eph.tgd = self.flt(line, 3)
                 else:
-                    eph.tgd = int(self.flt(line, 2))
+                    eph.tgd = self.flt(line, 2)
             else:
                 eph.sva = int(self.flt(line, 0))
                 eph.svh = int(self.flt(line, 1))
-- 
2.43.0


From cf6e63cba25e6df12370b8ddaeb2d99335737a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 082/156] fix: TGD of BDS B-CNAV3 records, L2 P data flag of
 LNAV records

---
 src/cssrlib/rinex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index f051689..8a48262 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -602,6 +602,8 @@ class rnxdec:
             if sys == uGNSS.GAL or self.mode_nav == 0:
                 eph.code = int(self.flt(line, 1))  # source for GAL
                 eph.week = int(self.flt(line, 2))
+                if sys in (uGNSS.GPS, uGNSS.QZS) and len(line) > 61:
+                    eph.l2p = int(self.flt(line, 3))
 
                 if sys == uGNSS.GAL and self.ver < 4.0:
                     eph.mode = 1 if eph.code & 0x2 else 0
@@ -725,7 +727,7 @@ class rnxdec:
                 if self.mode_nav < 3:  # CNAV-1,2
                     eph.iodc = int(self.flt(line, 3))
                 else:  # CNAV-3
-                    eph.tgd_b = float(self.flt(line, 3))  # tgd_B2bI
+                    eph.tgd = float(self.flt(line, 3))  # tgd_B2bI
 
                 line = fnav.readline()  # line #9
                 tot = self.flt(line, 0)
-- 
2.43.0


From 8a5e98333e340b5e16fa1fdf82c4fc031d5c5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 083/156] fix: transmission time of navigation records refers
 to the week of the ephemeris

---
 src/cssrlib/rinex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 8a48262..74a77e8 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1188,10 +1188,11 @@ class rnxenc:
 
         if sys == uGNSS.BDS:
             ep = time2epoch(gpst2bdt(eph.toc))
-            week, tot_ = time2bdt(eph.tot)
+            week, tot_ = time2bdt(gpst2bdt(eph.tot))
         else:
             ep = time2epoch(eph.toc)
             week, tot_ = time2gpst(eph.tot)
+        tot_ += (week-eph.week)*604800.0
 
         if sys == uGNSS.BDS:
             if eph.mode == 0:  # D1/D2
-- 
2.43.0


From f248e5d54b6523de464af67779cc44161c0a5238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 084/156] fix: BGD of Galileo I/NAV records written in the
 order of the table

---
 src/cssrlib/rinex.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 74a77e8..7ce1135 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1317,9 +1317,12 @@ class rnxenc:
         if sys == uGNSS.GAL:  # I/NAV, F/NAV
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19s}\n".
                      format(eph.idot, float(eph.code), float(eph.week), ""))
+            bgd = (eph.tgd, eph.tgd_b)
+            if (eph.code >> 9) & 1:  # E5b,E1
+                bgd = (eph.tgd_b, eph.tgd)
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
-                     format(float(eph.sva), float(eph.svh), eph.tgd,
-                            float(eph.tgd_b)))
+                     format(float(eph.sva), float(eph.svh), float(bgd[0]),
+                            float(bgd[1])))
             fh.write("    {:19.12E}{:19s}{:19s}{:19s}\n".
                      format(tot_, "", "", ""))
 
-- 
2.43.0


From c28611c2dba72a31f9e60ee768cfc598707d1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 085/156] fix: BGD of Galileo I/NAV is that of E1-E5b

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index c4c66e3..a1c0661 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -266,8 +266,8 @@ class RawNav():
         eph.toe = gst2time(week_gst, eph.toes)
         eph.toc = gst2time(week_gst, toc)
 
-        eph.tgd = bgda*rCST.P2_32    # TGD (E1, E5a)
-        eph.tgd_b = bgdb*rCST.P2_32  # TGD (E1, E5b)
+        eph.tgd = bgdb*rCST.P2_32    # TGD (E1, E5b)
+        eph.tgd_b = bgda*rCST.P2_32  # TGD (E1, E5a)
 
         # e5b_hs, e1b_hs, e5b_dvs, e1b_dvs
         eph.svh = (e5b_hs << 7) | (e5b_dvs << 6) | (e1b_hs << 1) | (e1b_dvs)
-- 
2.43.0


From c933537c5bed484377efb5fada03874b27f7afcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 086/156] fix: repeated navigation records are those of the
 same reference time

---
 src/cssrlib/rinex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 7ce1135..2b18e64 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1177,7 +1177,7 @@ class rnxenc:
         """ write RINEX navigation message to file """
         if eph.sat in self.rec_eph.keys():
             if eph.mode in self.rec_eph[eph.sat].keys() and \
-                    self.rec_eph[eph.sat][eph.mode][0] == eph.iode:
+                    self.rec_eph[eph.sat][eph.mode] == [eph.iode, eph.toes]:
                 return
         else:
             self.rec_eph[eph.sat] = {}
@@ -1362,11 +1362,11 @@ class rnxenc:
         """ write RINEX navigation message for GLONASS to file """
         if geph.sat in self.rec_eph.keys():
             if geph.mode in self.rec_eph[geph.sat].keys() and \
-                    self.rec_eph[geph.sat][geph.mode][0] == geph.iode:
+                    self.rec_eph[geph.sat][geph.mode] == [geph.iode, geph.toe]:
                 return
         else:
             self.rec_eph[geph.sat] = {}
-        self.rec_eph[geph.sat][geph.mode] = [geph.iode, geph.toes]
+        self.rec_eph[geph.sat][geph.mode] = [geph.iode, geph.toe]
 
         id_ = sat2id(geph.sat)
         sys, prn = sat2prn(geph.sat)
-- 
2.43.0


From 1f4b0e6007de069b4847065064292468890aed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 087/156] fix: GLONASS navigation records

---
 src/cssrlib/rinex.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 2b18e64..a69292d 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -399,7 +399,7 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     t0 = self.flt(line, 3)
                 else:  # L1OC, L3OC
-                    bet_ = self.flt(line, 3)  # clock drift rate
+                    geph.beta = self.flt(line, 3)  # clock drift rate
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
@@ -418,7 +418,7 @@ class rnxdec:
                     if geph.frq > 128:
                         geph.frq -= 256
                 else:  # L1OC
-                    dvalid = int(self.flt(line, 3))
+                    geph.status = int(self.flt(line, 3))
 
                 line = fnav.readline()  # line #3
                 pos[2] = self.flt(line, 0)*1e3
@@ -432,9 +432,9 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     geph.age = int(self.flt(line, 3))
                 elif self.mode_nav == 1:  # L1OC
-                    tgd_L2OCp = self.flt(line, 3)  # tgd_L2OCp
+                    geph.isc[1] = self.flt(line, 3)  # tgd_L2OCp
                 elif self.mode_nav == 3:  # L3OC
-                    isc_L3OCp = self.flt(line, 3)  # isc_L3OCp
+                    geph.isc[2] = self.flt(line, 3)  # isc_L3OCp
 
                 # Use GLONASS line #4 only from RINEX v3.05 onwards
                 #
@@ -445,38 +445,40 @@ class rnxdec:
                     if self.mode_nav == 0:  # FDMA
                         # b7-8: M, b6: P4, b5: P3, b4: P2, b2-3: P1, b0-1: P
                         geph.status = int(self.flt(line, 0))
-                        geph.dtaun = -self.flt(line, 1)
+                        geph.flag = geph.status
+                        geph.dtaun = self.flt(line, 1)
                         geph.urai[0] = int(self.flt(line, 2))
-                        if len(line) >= 80:
+                        geph.sva = geph.urai[0]
+                        if line[61:80].strip():
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
-                        sattype = int(self.flt(line, 0))
-                        src = int(self.flt(line, 1))
-                        geph.aode = int(self.flt(line, 2))
-                        geph.aodc = int(self.flt(line, 3))
+                        geph.sattype = int(self.flt(line, 0))
+                        geph.src = int(self.flt(line, 1))
+                        geph.aode = self.flt(line, 2)
+                        geph.aodc = self.flt(line, 3)
 
                         line = fnav.readline()  # line #5
-                        P2 = int(self.flt(line, 0))  # attitude flag
+                        geph.flag = int(self.flt(line, 0))  # attitude flag
                         geph.tin = self.flt(line, 1)  # sec of day, UTC(SU)
                         geph.tau1 = self.flt(line, 2)
                         geph.tau2 = self.flt(line, 3)
 
                         line = fnav.readline()  # line #6
-                        geph.yaw = self.flt(line, 0)
+                        geph.psi = self.flt(line, 0)
                         geph.sn = int(self.flt(line, 1))
                         geph.win = self.flt(line, 2)
                         geph.dw = self.flt(line, 3)
 
                         line = fnav.readline()  # line #7
                         geph.wmax = self.flt(line, 0)
-                        geph.dpoc[0] = self.flt(line, 1)
-                        geph.dpoc[1] = self.flt(line, 2)
-                        geph.dpoc[2] = self.flt(line, 3)
+                        geph.dpos[0] = self.flt(line, 1)
+                        geph.dpos[1] = self.flt(line, 2)
+                        geph.dpos[2] = self.flt(line, 3)
 
                         line = fnav.readline()  # line #8
                         geph.urai[0] = int(self.flt(line, 0))
                         geph.urai[1] = int(self.flt(line, 1))
-                        tot = self.flt(line, 2)
+                        t0 = self.flt(line, 3)
 
                 tod = t0 % 86400.0
                 tof = gpst2time(week, tod + dow*86400.0)
@@ -1375,7 +1377,7 @@ class rnxenc:
             return
 
         ep = time2epoch(gpst2utc(geph.toe))
-        week, tot_ = time2gpst(geph.tof)
+        week, tot_ = time2gpst(gpst2utc(geph.tof))
 
         if geph.mode == 0:
             lbl = "FDMA"
-- 
2.43.0


From 31f81eec0e52440b162f9db264903d1d8ea58d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 088/156] fix: reference and transmission time of SBAS
 navigation records

---
 src/cssrlib/rinex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index a69292d..683ff5c 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -506,6 +506,9 @@ class rnxdec:
                 seph.af0 = self.flt(line, 1)
                 seph.af1 = self.flt(line, 2)
                 seph.tot = self.flt(line, 3)
+                seph.t0 = seph.toc
+                week, _ = time2gpst(seph.t0)
+                seph.tof = gpst2time(week, seph.tot)
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
-- 
2.43.0


From d90c2b13ae90902fc6c9b96f1929a8b4d65da03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 089/156] fix: repeated GLONASS navigation records compared by
 the value of the reference time

---
 src/cssrlib/rinex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 683ff5c..a1ab7cf 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1367,11 +1367,12 @@ class rnxenc:
         """ write RINEX navigation message for GLONASS to file """
         if geph.sat in self.rec_eph.keys():
             if geph.mode in self.rec_eph[geph.sat].keys() and \
-                    self.rec_eph[geph.sat][geph.mode] == [geph.iode, geph.toe]:
+                    self.rec_eph[geph.sat][geph.mode] == \
+                    [geph.iode, geph.toe.time]:
                 return
         else:
             self.rec_eph[geph.sat] = {}
-        self.rec_eph[geph.sat][geph.mode] = [geph.iode, geph.toe]
+        self.rec_eph[geph.sat][geph.mode] = [geph.iode, geph.toe.time]
 
         id_ = sat2id(geph.sat)
         sys, prn = sat2prn(geph.sat)
-- 
2.43.0


From 78723ccb24d10be82beb699b6b6ec18d32959159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 090/156] fix: BGD of Galileo I/NAV (MT1046) is that of E1-E5b

---
 src/cssrlib/rtcm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index b23d268..94a1696 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2726,9 +2726,11 @@ class rtcm(cssr, rtcmUtil):
         eph.crc = crc*rCST.P2_5
         eph.omg = omg*rCST.P2_31*rCST.SC2RAD
         eph.OMGd = OMGd*rCST.P2_43*rCST.SC2RAD
-        eph.tgd = tgd*rCST.P2_32
-        if self.msgtype == 1046:
-            eph.tgd_b = tgd2*rCST.P2_32
+        if self.msgtype == 1046:  # E5b and E1-B
+            eph.tgd = tgd2*rCST.P2_32   # TGD (E1, E5b)
+            eph.tgd_b = tgd*rCST.P2_32  # TGD (E1, E5a)
+        else:
+            eph.tgd = tgd*rCST.P2_32    # TGD (E1, E5a)
 
         eph.week = self.adjustweek(eph.week, self.time)
 
-- 
2.43.0


From 43dd80aff2d5143839f11435deb12b38400aedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 091/156] fix: accuracy codes of the SP3 header with leading
 blanks

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index b588583..1df8fff 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -61,7 +61,7 @@ class peph:
                 self.cnt += 1
 
     def parse_acclist(self, line):
-        n = len(line[9:60].strip())//3
+        n = len(line[9:60].rstrip())//3
         for k in range(n):
             acc = int(line[9+3*k:12+3*k])
             if self.cnt < self.nsat:
-- 
2.43.0


From 92d409576fb435787b94921f4a7cfadfd3e8a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 092/156] fix: number of SP3 epochs counts the stored epochs
 only

---
 src/cssrlib/peph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 1df8fff..3899512 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -141,7 +141,6 @@ class peph:
                 if self.status == 10:  # body
                     if line[0:2] == '* ':  # epoch header
                         v = False
-                        nav.ne += 1
                         self.cnt = 0
                         peph = peph_t(str2time(line, 3, 27))
                         # ep = time2epoch(peph.time)
@@ -193,12 +192,13 @@ class peph:
                                     s = line[61+j*3:61+j*3+slen]
                                     std = int(s) if s[-1] != ' ' else 0
                                     if self.scl[ofst] > 0.0 and std > 0.0:
-                                        v = pow(self.scl[ofst], std)*scl
+                                        s_ = pow(self.scl[ofst], std)*scl
                                         if line[0] == 'P':
-                                            peph.std[sat_-1, j] = v
+                                            peph.std[sat_-1, j] = s_
                                         else:
-                                            peph.vst[sat_-1, j] = v*1e-4
+                                            peph.vst[sat_-1, j] = s_*1e-4
                     if v:
+                        nav.ne += 1
                         nav.peph.append(peph)
 
         return nav
-- 
2.43.0


From 4cb4fbc722eef69ec4480cd3f1ec52db7f2c0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 093/156] fix: missing satellite position in SP3 data

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 3899512..f60bd49 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -331,7 +331,7 @@ class peph:
 
         for j in range(NMAX+1):
             t[j] = timediff(nav.peph[i+j].time, time)
-            if np.linalg.norm(nav.peph[i+j].pos[sat-1, :]) <= 0.0:
+            if not np.linalg.norm(nav.peph[i+j].pos[sat-1, 0:3]) > 0.0:
                 return None, None, False, False
 
         for j in range(NMAX+1):
-- 
2.43.0


From ca260e16d4b75b572885a501ffae885251eb61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 094/156] fix: standard deviation of interpolated precise
 clocks in meters

---
 src/cssrlib/peph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index f60bd49..5a97cbe 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -362,6 +362,7 @@ class peph:
         t[1] = timediff(time, p_[1].time)
 
         c = [p_[0].pos[sat-1, 3], p_[1].pos[sat-1, 3]]
+        std = 0.0
 
         if t[0] <= 0.0:
             dts[0] = c[0]
@@ -371,10 +372,10 @@ class peph:
             dts[0] = c[1]
             if dts[0] != 0.0:
                 std = p_[1].std[sat-1, 3]*rCST.CLIGHT-EXTERR_CLK*t[1]
-        elif c[0] != np.nan and c[1] != np.nan:
+        elif not np.isnan(c[0]) and not np.isnan(c[1]):
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1, 3]+EXTERR_CLK*abs(t[i])
+            std = p_[i].std[sat-1, 3]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
         else:
             dts[0] = np.nan
 
@@ -419,7 +420,7 @@ class peph:
         elif c[0] != 0.0 and c[1] != 0.0:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1]+EXTERR_CLK*abs(t[i])
+            std = p_[i].std[sat-1]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
         else:
             return None, False
 
-- 
2.43.0


From 78d7cfbb8cfad0e464edb091cf0563a61b48aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 095/156] fix: no result if the position at the next instant is
 missing

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 5a97cbe..6ac81c7 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -455,7 +455,7 @@ class peph:
         #
         time_tt = timeadd(time, tt)
         rst, dtst, _, _ = self.pephpos(time_tt, sat, nav)
-        if rss is None:
+        if rst is None:
             return None, None, False
 
         # Get clock offset from Clock-RINEX
-- 
2.43.0


From be34e55028d14e3637a3ca52d5e7e9a6d103b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 096/156] fix: reading a second clock file

---
 src/cssrlib/rinex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index a1ab7cf..a6f4142 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -760,6 +760,7 @@ class rnxdec:
         #
         offs = None
 
+        nav.nc = 0
         nav.pclk = []
         fnav = open(clkfile, 'rt')
 
-- 
2.43.0


From 9d6eb258e1029343976662397b1d4942534ae1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 097/156] fix: extrapolation error of precise clocks after the
 last epoch

---
 src/cssrlib/peph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 6ac81c7..50a8a5f 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -371,7 +371,7 @@ class peph:
         elif t[1] >= 0.0:
             dts[0] = c[1]
             if dts[0] != 0.0:
-                std = p_[1].std[sat-1, 3]*rCST.CLIGHT-EXTERR_CLK*t[1]
+                std = p_[1].std[sat-1, 3]*rCST.CLIGHT+EXTERR_CLK*t[1]
         elif not np.isnan(c[0]) and not np.isnan(c[1]):
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
@@ -416,7 +416,7 @@ class peph:
             dts[0] = c[1]
             if dts[0] == 0.0:
                 return None, False
-            std = p_[1].std[sat-1]*rCST.CLIGHT-EXTERR_CLK*t[1]
+            std = p_[1].std[sat-1]*rCST.CLIGHT+EXTERR_CLK*t[1]
         elif c[0] != 0.0 and c[1] != 0.0:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-- 
2.43.0


From 320b867079e34b96b53a4d8fa9db869c898d981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 098/156] fix: retrieval of differential code biases

---
 src/cssrlib/peph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 50a8a5f..a96551c 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1279,7 +1279,7 @@ class biasdec():
                     timediff(time, dcb.ted) < 0.0:
                 bias = dcb.bias
                 std = dcb.std
-                bcode = dcb.code1
+                bcode = dcb.sig1
                 break
 
         return bias, std, bcode
@@ -1341,7 +1341,7 @@ class biasdec():
 
                     # Skip GLONASS biases if site ID does not match
                     #
-                    if sys == 'R' and not site == siteID:
+                    if sys == uGNSS.GLO and not site == siteID:
                         continue
 
                     sig1 = rSigRnx(sys, line[25:28])
-- 
2.43.0


From 0abc07cd55cf03d11e0ce752472dbcb83dd45391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 099/156] fix: undefined start time of a bias is before any
 epoch

---
 src/cssrlib/peph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index a96551c..94dcd7a 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1258,13 +1258,13 @@ class biasdec():
         self.dcb = []
         self.osb = []
 
-    def doy2time(self, ep):
-        """ calculate time from doy """
+    def doy2time(self, ep, undef=3000):
+        """ calculate time from doy, undefined time refers to year undef """
         year = int(ep[0])
         doy = int(ep[1])
         sec = int(ep[2])
         if year == 0 and doy == 0 and sec == 0:  # undef
-            year = 3000
+            year, doy = undef, 1
         days = (year-1970)*365+(year-1969)//4+doy-1
         return gtime_t(days*86400+sec)
 
@@ -1352,7 +1352,7 @@ class biasdec():
                         line[40:43]), int(line[44:49])]
                     ep2 = [int(line[50:54]), int(
                         line[55:58]), int(line[59:64])]
-                    tst = self.doy2time(ep1)
+                    tst = self.doy2time(ep1, 1970)
                     ted = self.doy2time(ep2)
                     unit = line[65:69]
 
@@ -1402,7 +1402,7 @@ class biasdec():
                         line[40:43]), int(line[44:49])]
                     ep2 = [int(line[50:54]), int(
                         line[55:58]), int(line[59:64])]
-                    tst = self.doy2time(ep1)
+                    tst = self.doy2time(ep1, 1970)
                     ted = self.doy2time(ep2)
                     unit = line[65:69]
                     # if (type1 == 0 and unit[0:2] != 'ns') or (type1 == 1 and unit[0:3] != 'cyc'):
-- 
2.43.0


From 9fb36fc1b7e68a8095c56651fe1e6369bde2c5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 100/156] fix: satellite antenna without an offset of the
 signal

---
 src/cssrlib/peph.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 94dcd7a..622ac1e 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -830,7 +830,7 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
                 off0 += fac0_*ant.off[sig]
             else:
                 print(f"sig={sig} not in antenna database.")
-                off0 = np.ones((1,3))*np.nan
+                off0 = np.ones(3)*np.nan
 
     # Interpolate PCV and map PCO on line-of-sight vector
     #
@@ -841,19 +841,19 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
         #
         sig = substSigTx(ant, sig_)
 
-        # Satellite PCO in local antenna frame
-        #
-        off = ant.off[sig] - off0
-
-        # Convert satellite PCO from antenna frame into ECEF frame
-        #
-        pco_v = off@A
-
         # Interpolate PCV and map PCO on line-of-sight vector
         #
         if sig not in ant.off or sig not in ant.var:
             dant[i] = None
         else:
+            # Satellite PCO in local antenna frame
+            #
+            off = ant.off[sig] - off0
+
+            # Convert satellite PCO from antenna frame into ECEF frame
+            #
+            pco_v = off@A
+
             pcv = np.interp(za, za_t, ant.var[sig])
             pco = -np.dot(pco_v, -e)
             dant[i] = (pco+pcv)*1e-3
@@ -959,6 +959,9 @@ def apc2com(nav, sat, time, rs, sigs, k=None):
         #
         sig = substSigTx(ant, sig_)
 
+        if sig not in ant.off:
+            return None
+
         # Satellite PCO in local antenna frame
         #
         off = fac_*ant.off[sig]*1e-3  # [m]
-- 
2.43.0


From 6380b4ea0a035f0deef4887f7c82b0c08cb9142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 101/156] fix: skip satellites without antenna correction

---
 src/cssrlib/pppssr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 247aa59..e0a4804 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -742,6 +742,8 @@ class pppos():
                 
                 ants = antModelTx(self.nav, e[i, :], (sigsPR + sigsCP),
                                   sat, obs.t, rs[i, :], sig0)                
+                if ants is None:
+                    continue
                 antsPR = ants[0:len(sigsPR)]
                 antsCP = ants[len(sigsPR):]
 
@@ -753,7 +755,9 @@ class pppos():
             # Check for invalid values
             #
             if antrPR is None or antrCP is None or \
-               antsPR is None or antsCP is None:
+               antsPR is None or antsCP is None or \
+               np.isnan(antrPR).any() or np.isnan(antrCP).any() or \
+               np.isnan(antsPR).any() or np.isnan(antsCP).any():
                 continue
 
             # Range correction
-- 
2.43.0


From 82652556844507f7f97560dafb17ae845060bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 102/156] fix: monitoring stations after an unused entry of
 MT47

---
 src/cssrlib/dgps.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index e7b9179..9beee27 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -139,6 +139,7 @@ class dgpsDec(cssr):
         for k in range(5):
             code, lat, lon, alt = bs.unpack_from('u6s15s15u6', msg, i)
             if code == 63:
+                i += 42
                 continue
             self.posr[code, 0] = lat*0.005
             self.posr[code, 1] = lon*0.005+115
-- 
2.43.0


From f33d116b3df5476d76bce9f09ff7e840496f1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 103/156] fix: corrections of monitoring stations with codes
 above 31

---
 src/cssrlib/dgps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 9beee27..f6e2f83 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -8,7 +8,7 @@ DGPS (QZSS SLAS) correction data decoder
 
 import numpy as np
 import bitstruct as bs
-from cssrlib.cssrlib import cssr, sCSSRTYPE, prn2sat, sCType
+from cssrlib.cssrlib import cssr, sCSSRTYPE, prn2sat, sCType, local_corr
 from cssrlib.gnss import uGNSS, rCST, timediff, time2str, \
     ecef2pos, sat2prn, timediff
 
@@ -54,6 +54,10 @@ class dgpsDec(cssr):
 
         self.sat = []
 
+        for inet in range(len(self.lc), self.MAX_ST+1):
+            self.lc.append(local_corr())
+            self.lc[inet].inet = inet
+
         self.lc[0].dclk = {}
         self.lc[0].ddft = {}
         self.lc[0].dorb = {}
-- 
2.43.0


From fd451468265d4f45d6ee66add8f8cd56e2e50ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 104/156] fix: satellite health of SLAS

---
 src/cssrlib/dgps.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index f6e2f83..8d81bea 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -78,6 +78,7 @@ class dgpsDec(cssr):
 
         self.iodssr = -1
         self.iodp_c = {}
+        self.svh = {}
 
         self.baselen = 0  # baseline length [km]
 
-- 
2.43.0


From effddd5d42b06606b6a0d07fc834d59529462af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 105/156] fix: SLAS corrections of satellites without issue of
 data

---
 src/cssrlib/dgps.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 8d81bea..501f948 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -75,6 +75,7 @@ class dgpsDec(cssr):
         self.iodi = -1
         self.iodm = -1
         self.iodg = -1
+        self.iodn = {}
 
         self.iodssr = -1
         self.iodp_c = {}
@@ -234,15 +235,19 @@ class dgpsDec(cssr):
             prc = bs.unpack_from('s12', msg, i)[0]*0.04
             i += 12
 
-            self.lc[inet].sat_n.append(sat)
-            self.lc[inet].iode[sat] = self.iodn[sat]
-            self.lc[inet].dclk[sat] = prc
+            nsat += 1
+
+            if sat in self.iodn:
+                self.lc[inet].sat_n.append(sat)
+                self.lc[inet].iode[sat] = self.iodn[sat]
+                self.lc[inet].dclk[sat] = prc
 
-            self.set_t0(ctype=sCType.CLOCK, sat=sat, inet=inet, t=self.time)
-            self.set_t0(ctype=sCType.ORBIT, sat=sat, inet=inet, t=self.time)
+                self.set_t0(ctype=sCType.CLOCK, sat=sat, inet=inet,
+                            t=self.time)
+                self.set_t0(ctype=sCType.ORBIT, sat=sat, inet=inet,
+                            t=self.time)
 
-            nsat += 1
-            if nsat > 14:
+            if nsat >= 14:
                 break
 
         self.iodp_c[inet] = iodp
-- 
2.43.0


From 228e720ea2d2313a84188fc40188280327464723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 106/156] fix: validity of SLAS corrections before the first
 correction

---
 src/cssrlib/dgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 501f948..b611b61 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -116,6 +116,8 @@ class dgpsDec(cssr):
 
     def check_validity(self, time):
         for sat in self.sat_n:
+            if sat not in self.lc[0].t0:
+                continue
             if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
-- 
2.43.0


From 8f10de1a087de401c5df967baafe374128213cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 107/156] fix: pos2ecef in degrees leaves the caller's position
 unchanged

---
 src/cssrlib/gnss.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 751d501..2b7479b 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1434,13 +1434,14 @@ def ecef2pos(r):
 
 def pos2ecef(pos, isdeg: bool = False):
     """ LLH (rad/deg) to ECEF position conversion  """
+    lat, lon = pos[0], pos[1]
     if isdeg:
-        pos[0] *= np.pi/180.0
-        pos[1] *= np.pi/180.0
-    s_p = sin(pos[0])
-    c_p = cos(pos[0])
-    s_l = sin(pos[1])
-    c_l = cos(pos[1])
+        lat *= np.pi/180.0
+        lon *= np.pi/180.0
+    s_p = sin(lat)
+    c_p = cos(lat)
+    s_l = sin(lon)
+    c_l = cos(lon)
     e2 = rCST.FE_WGS84*(2.0-rCST.FE_WGS84)
     v = rCST.RE_WGS84/sqrt(1.0-e2*s_p**2)
     r = np.array([(v+pos[2])*c_p*c_l,
-- 
2.43.0


From 0662ba7849bbc5a9852a3ae869a4ed18b492c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 108/156] fix: sun and moon position: pass GPST to the
 celestial to Earth-fixed rotation

---
 src/cssrlib/ppp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ppp.py b/src/cssrlib/ppp.py
index 35ee99e..83ba9bb 100644
--- a/src/cssrlib/ppp.py
+++ b/src/cssrlib/ppp.py
@@ -3,6 +3,7 @@ module for PPP processing
 """
 from cssrlib.gnss import rCST, epoch2time, time2epoch, timeadd
 from cssrlib.gnss import timediff, vnorm, ecef2pos, xyz2enu, enu2xyz, gpst2utc
+from cssrlib.gnss import utc2gpst
 from cssrlib.gnss import ecef2enu, Nav, prn2sat, pos2ecef, uGNSS
 from math import sin, cos, atan2, asin
 import numpy as np
@@ -258,7 +259,7 @@ def sunmoonpos(tutc, erpv=np.zeros(5)):
     rmoon_eci = rm*np.array([c_p*c_l, c_e*c_p*s_l-s_e*s_p,
                              s_e*c_p*s_l+c_e*s_p])
 
-    U, gmst = eci2ecef(tutc, erpv)
+    U, gmst = eci2ecef(utc2gpst(tutc), erpv)
     rsun = U@rsun_eci
     rmoon = U@rmoon_eci
 
-- 
2.43.0


From a7e493e6ab4a515c35907414e4be374b52a5d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 109/156] fix: SBAS fast corrections: read the UDREI after all
 corrections and skip the spare bits of message type 24

---
 src/cssrlib/sbas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 625aa4b..3f45c9a 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -439,14 +439,14 @@ class sbasDec(cssr):
             i += 12
             j = type_*13+k
             if j >= len(self.sat):
-                break
+                continue
             self.lc[0].hclk[self.sat[j]] = -self.sval(fc, 12, 0.125)
         for k in range(n):
             udrei = bs.unpack_from('u4', msg, i)[0]
             i += 4
             j = type_*13+k
             if j >= len(self.sat):
-                break
+                continue
             self.obad.udrei[self.sat[j]] = udrei
             self.set_t0(sat=self.sat[j], ctype=sCType.HCLOCK, t=self.time)
 
@@ -685,6 +685,7 @@ class sbasDec(cssr):
             return i
 
         i = self.decode_sbas_fast_corr_blk(msg, i, 6, type_)
+        i += 10  # iodp, block id, iodf and spare
         i = self.decode_sbas_lcorr_half(msg, i)  # MT25 half-msg(106bits)
         return i
 
-- 
2.43.0


From d0d24d806b97c89c3fc89e85e23525ea6110d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 110/156] fix: SBAS long-term corrections belong to the
 satellite of the PRN mask

---
 src/cssrlib/sbas.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 3f45c9a..42f2394 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -615,8 +615,10 @@ class sbasDec(cssr):
 
     def add_sbas_corr(self, slot, iodn, dx, dy, dz, db,
                       dxd=0, dyd=0, dzd=0, dbd=0):
-        """ add SBAS long-term correction """
-        sat = self.slot2sat(slot)
+        """ add SBAS long-term correction (slot: number in the PRN mask) """
+        if slot < 1 or slot > len(self.sat):
+            return 0
+        sat = self.sat[slot-1]
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
-- 
2.43.0


From fbf5ae99cbf9a511925838062f843696686813c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 111/156] fix: SBAS long-term half message of another mask is
 skipped entirely

---
 src/cssrlib/sbas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 42f2394..8710ded 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -650,6 +650,7 @@ class sbasDec(cssr):
         ofst = 102 if vc == 0 else 103
         iodp = bs.unpack_from('u2', msg, i+ofst)[0]
         if iodp != self.iodp:
+            i += 105
             return i
 
         if vc == 0:
-- 
2.43.0


From e0a1a3ce6728a3bed1ae590d3333e05cebb3fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 112/156] fix: SBAS long-term corrections with rates refer to
 their time of applicability

---
 src/cssrlib/sbas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 8710ded..6c6a0b8 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -614,7 +614,7 @@ class sbasDec(cssr):
         return i
 
     def add_sbas_corr(self, slot, iodn, dx, dy, dz, db,
-                      dxd=0, dyd=0, dzd=0, dbd=0):
+                      dxd=0, dyd=0, dzd=0, dbd=0, t0=None):
         """ add SBAS long-term correction (slot: number in the PRN mask) """
         if slot < 1 or slot > len(self.sat):
             return 0
@@ -638,8 +638,9 @@ class sbasDec(cssr):
 
         self.lc[0].cstat |= (1 << sCType.CLOCK) | (1 << sCType.ORBIT)
 
-        self.set_t0(sat=sat, ctype=sCType.CLOCK, t=self.time)
-        self.set_t0(sat=sat, ctype=sCType.ORBIT, t=self.time)
+        t0 = self.time if t0 is None else t0
+        self.set_t0(sat=sat, ctype=sCType.CLOCK, t=t0)
+        self.set_t0(sat=sat, ctype=sCType.ORBIT, t=t0)
         return sat
 
     def decode_sbas_lcorr_half(self, msg, i):
@@ -667,10 +668,10 @@ class sbasDec(cssr):
             slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd = bs.unpack_from(
                 'u6u8s11s11s11s11s8s8s8s8', msg, i)
             i += 90
-            self.add_sbas_corr(slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd)
-
             toa = bs.unpack_from('u13', msg, i)[0]
             i += 15
+            self.add_sbas_corr(slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd,
+                               tod2tow(toa*16.0, self.time))
 
         self.iodssr_c[sCType.CLOCK] = iodp
         self.iodssr_c[sCType.ORBIT] = iodp
-- 
2.43.0


From 84c021b90c222a664d6e475fd982eb848ef3f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 113/156] fix: SBAS degradation parameter Cltc_v1 has a
 resolution of 0.05 mm/s

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 6c6a0b8..e336a40 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -541,7 +541,7 @@ class sbasDec(cssr):
         i += 90
 
         self.deg_prm = np.array(
-            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-4, Iltc_v1*1.0,
+            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-5, Iltc_v1*1.0,
              Cltc_v0*2e-3, Iltc_v0*1.0, Cgeo_lsb*5e-4, Cgeo_v*5e-5,
              Igeo*1.0, Cer*0.5, Ciono_s*1e-3, Iiono*1.0,
              Ciono_r*5e-6, RSS_udre, RSS_iono, Ccov*0.1])
-- 
2.43.0


From 7f89ae7512aa35ba64cf7193af1e22cb050dac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 114/156] fix: SBAS almanac reference time is read from the end
 of the message

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index e336a40..cd36961 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -561,7 +561,7 @@ class sbasDec(cssr):
     def decode_sbas_almanac(self, msg, i):
         """ Type 17 GEO almanac message """
 
-        ta = bs.unpack_from('u11', msg, 201)[0]*64.0
+        ta = bs.unpack_from('u11', msg, i+201)[0]*64.0
         t0 = tod2tow(ta, self.time)
 
         for k in range(3):
-- 
2.43.0


From d442a0679350778a758070508cccae29adc2d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 115/156] fix: SBAS ionospheric grid: delays belong to the
 current mask

---
 src/cssrlib/sbas.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index cd36961..a1cf5e9 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -601,9 +601,18 @@ class sbasDec(cssr):
             if bs.unpack_from('u1', msg, i+k)[0] == 1:
                 idx.append(k)
         i += 201+1
+        ngp = len(idx)
+
+        if iodi != self.iodi:  # masks and delays of the previous issue
+            self.igp_idx = {}
+            self.vtec = {}
+            self.givei = {}
+        elif band in self.igp_idx and self.igp_idx[band] != idx:
+            self.vtec.pop(band, None)
+            self.givei.pop(band, None)
+
         self.igp_idx[band] = idx
         self.iodi = iodi
-        ngp = len(idx)
 
         if band not in self.vtec:
             self.vtec[band] = np.zeros(ngp)
-- 
2.43.0


From a124db0f8e0c586dea4b20d06a391923ec51da0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 116/156] fix: SBAS ionospheric grid: GIVEI 0 is usable, not
 monitored points are not

---
 src/cssrlib/sbas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index a1cf5e9..0dcf583 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -132,7 +132,8 @@ def searchIGP(t, posp, cs):
             if len(idx) == 0:
                 continue
             k = idx[0]
-            if len(cs.givei[band]) < k or cs.givei[band][k] <= 0:
+            if len(cs.givei[band]) <= k or cs.givei[band][k] >= 15 or \
+                    np.isnan(cs.vtec[band][k]):
                 continue
             igp[i] = [cs.vtec[band][k], cs.givei[band][k]]
             cs.inet = band+1
@@ -618,7 +619,7 @@ class sbasDec(cssr):
             self.vtec[band] = np.zeros(ngp)
 
         if band not in self.givei:
-            self.givei[band] = np.zeros(ngp, dtype=int)
+            self.givei[band] = np.full(ngp, 15, dtype=int)
 
         return i
 
-- 
2.43.0


From 93850485394d7cbf33c624231b053fa0ef26c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 117/156] fix: ionoSBAS always returns delay and variance

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 0dcf583..012407b 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -154,7 +154,7 @@ def ionoSBAS(t, pos, az, el, cs):
     idx_t = [[1, 2, 0], [0, 3, 2], [0, 3, 1], [1, 2, 3]]
 
     if pos[2] < -100.0 or el <= 0.0:
-        return None
+        return diono, var
 
     # ipp (ionospheric pierce point) position and slant factor
     sf, posp = ionppp(pos, az, el, re, hion)
-- 
2.43.0


From 22761467c2030caf858bf67577a6f6858e4c1907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 118/156] fix: SBAS service message: every region has its own
 shape bit

---
 src/cssrlib/sbas.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 012407b..a4b9a81 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -52,7 +52,7 @@ class SBASService():
         self.lon1 = np.zeros(5)
         self.lat2 = np.zeros(5)
         self.lon2 = np.zeros(5)
-        self.shape = 0
+        self.shape = np.zeros(5, dtype=int)
 
 
 class paramOBAD():
@@ -758,13 +758,14 @@ class sbasDec(cssr):
         for k in range(5):
             lat1, lon1, lat2, lon2 = bs.unpack_from('s8s9s8s9', msg, i)
             i += 34
+            self.sinfo.shape[k] = bs.unpack_from('u1', msg, i)[0]
+            i += 1
             self.sinfo.lat1[k] = lat1
             self.sinfo.lon1[k] = lon1
             self.sinfo.lat2[k] = lat2
             self.sinfo.lon2[k] = lon2
 
-        self.sinfo.shape = bs.unpack_from('u1', msg, i)[0]
-        i += 16
+        i += 15
 
         return i
 
-- 
2.43.0


From cc05f2d466c0b282579e851cd6d953fd6bdc6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 119/156] fix: SBAS covariance: satellite of the PRN mask and
 all elements of the factor

---
 src/cssrlib/sbas.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index a4b9a81..3765ea7 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -777,7 +777,7 @@ class sbasDec(cssr):
 
         scl = 2**(scale-5)
         R = np.array([[E11, E12, E13, E14],
-                      [0, E22, E23, E23],
+                      [0, E22, E23, E24],
                       [0,   0, E33, E34],
                       [0,   0,   0, E44]])*scl
         C = R.T@R
@@ -795,7 +795,9 @@ class sbasDec(cssr):
             slot = bs.unpack_from('u6', msg, i)[0]
             i += 6
             i, C, scl = self.decode_cov(msg, i)
-            sat = self.sat[slot]
+            if slot < 1 or slot > len(self.sat):
+                continue
+            sat = self.sat[slot-1]
             self.obad.cov[sat] = C
             self.obad.scl[sat] = scl
 
-- 
2.43.0


From 4e9b66badb8785f941de0a1ba2076e913c276d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 120/156] fix: DFMC integrity messages store the DFREI of the
 masked satellites

---
 src/cssrlib/sbas.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 3765ea7..1ea9fc5 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -857,7 +857,7 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt34(self, msg, i):
         """ Types 34 integrity message (indexed) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
@@ -877,27 +877,28 @@ class sbasDec(cssr):
             sat = self.sat_n[j]
             if dfreci[j] == 1:
                 if k < 7:
-                    self.dfrei[sat] = dfrei[k]
+                    self.obad.dfrei[sat] = dfrei[k]
                     k += 1
             elif dfreci[j] == 2:
-                self.dfrei[sat] += 1
-                if self.dfrei[sat] > 14:
-                    self.dfrei[sat] = 14
+                if sat in self.obad.dfrei and self.obad.dfrei[sat] < 14:
+                    self.obad.dfrei[sat] += 1
             elif dfreci[j] == 3:  # DNU
-                self.dfrei[sat] = 15
+                self.obad.dfrei[sat] = 15
 
         i += 4
         return i
 
     def decode_dfmc_integrity_mt35(self, msg, i):
         """ Types 35 integrity message (for #1-53) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
 
         for k in range(53):
-            self.dfrei[k] = bs.unpack_from('u4', msg, i)[0]
+            if k < self.nsat:
+                self.obad.dfrei[self.sat_n[k]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
 
         i += 4
@@ -905,13 +906,15 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt36(self, msg, i):
         """ Types 36 integrity message (for #54-92) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
 
         for k in range(39):
-            self.dfrei[k+53] = bs.unpack_from('u4', msg, i)[0]
+            if k+53 < self.nsat:
+                self.obad.dfrei[self.sat_n[k+53]] = \
+                    bs.unpack_from('u4', msg, i)[0]
             i += 4
         i += 60
         return i
-- 
2.43.0


From 98d164e956b8ace5df24d0d42d135e5a3d4955f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 121/156] fix: DFMC SBAS ephemeris and almanac: satellite and
 parameter names

---
 src/cssrlib/sbas.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 1ea9fc5..020e839 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -967,13 +967,13 @@ class sbasDec(cssr):
         i += 41
         self.iodg = iodg
 
-        sat = self.slot2sat(slotd)
+        sat = prn2sat(uGNSS.SBS, slotd+119)
         eph = Eph(sat)
         eph.cuc = self.sval(cuc, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.cus = self.sval(cus, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.idot = self.sval(idot, 22, 7/6*rCST.SC2RAD*rCST.P2_21*1e-6)
         eph.omg = self.sval(omg, 34, rCST.SC2RAD*rCST.P2_33)
-        eph.Omg0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
+        eph.OMG0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
         eph.M0 = self.sval(M0, 34, rCST.SC2RAD*rCST.P2_33)
 
         eph.af0 = self.sval(af0, 25, 0.02/rCST.CLIGHT)  # [m] -> [s]
@@ -997,7 +997,7 @@ class sbasDec(cssr):
         eph = self.Eph
         eph.i0 = i0*rCST.SC2RAD*rCST.P2_33
         eph.e = e*rCST.P2_30
-        eph.a = a*0.02
+        eph.A = a*0.02
 
         eph.toe = tod2tow(te*16.0, self.time)
         eph.toc = eph.toe
@@ -1033,7 +1033,7 @@ class sbasDec(cssr):
             alm.i0 = i0*rCST.SC2RAD*rCST.P2_13
             alm.omg = omg*rCST.SC2RAD*rCST.P2_13
             alm.OMG0 = OMG0*rCST.SC2RAD*rCST.P2_13
-            alm.OMDd = OMGd*1e-9
+            alm.OMGd = OMGd*1e-9
             alm.M0 = M0*rCST.SC2RAD*rCST.P2_14
             alm.toa = tod2tow(ta*1800.0, self.time)
             self.Alm[sat] = alm
-- 
2.43.0


From f2192b4f48d1d3404422baa3bbb7b60f753245ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 122/156] fix: GPS/QZSS LNAV: GPS time of transmission,
 unsigned eccentricity, nearest week

---
 src/cssrlib/rawnav.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index a1c0661..ac3346e 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -408,7 +408,7 @@ class RawNav():
         M0 = bs.unpack('s32', bs.pack('u8u24', M0_, M0))[0]
         cuc, e_ = bs.unpack_from('s16u8', buff, i0+32*5+2)
         e = bs.unpack_from('u24', buff, i0+32*6+2)[0]
-        e = bs.unpack('s32', bs.pack('u8u24', e_, e))[0]
+        e = bs.unpack('u32', bs.pack('u8u24', e_, e))[0]
         cus, sa_ = bs.unpack_from('s16u8', buff, i0+32*7+2)
         sa = bs.unpack_from('u24', buff, i0+32*8+2)[0]
         sqrtA = bs.unpack('u32', bs.pack('u8u24', sa_, sa))[0]
@@ -431,7 +431,7 @@ class RawNav():
         if iode != iode2 or iode != (iodc & 0xff):
             return None
 
-        eph.week = (week // 1024)*1024 + wn
+        eph.week = wn+(week-wn+512)//1024*1024
         eph.l2p = l2p
         eph.code = code
         eph.svh = svh
@@ -462,7 +462,7 @@ class RawNav():
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.mode = 0  # LNAV
 
-        eph.tot = bdt2time(eph.week, tow)
+        eph.tot = gpst2time(eph.week, tow)
         if toc < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
         elif toc > tow + rCST.HALFWEEK_SEC:
-- 
2.43.0


From 1d54d815d2618c65fd70a2b100780907ea12f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 123/156] fix: CNAV/CNAV-2: week of the prediction time is the
 one nearest to WN

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index ac3346e..4749fb6 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -631,7 +631,7 @@ class RawNav():
         eph.omg = omg*rCST.P2_32*rCST.SC2RAD
         eph.integ = (alert << 2) | (esf << 1) | isf
 
-        eph.wn_op = wn//256*256 + wn_op
+        eph.wn_op = wn + (wn_op-wn+128) % 256 - 128
 
         eph.toes = toe*300.0
         eph.OMG0 = OMG0*rCST.P2_32*rCST.SC2RAD
@@ -744,7 +744,7 @@ class RawNav():
         else:
             eph.integ = (esf << 1) | isf
 
-        eph.wn_op = wn//256*256 + wn_op
+        eph.wn_op = wn + (wn_op-wn+128) % 256 - 128
 
         eph.toes = toe*300.0
         eph.OMG0 = OMG0*rCST.P2_32*rCST.SC2RAD
-- 
2.43.0


From 7b9aebafaf69b8d5ebc71b0d7cebdd571ff72ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 124/156] fix: CNAV-2: week of toe decided from toe in seconds

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 4749fb6..18d048e 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -761,9 +761,9 @@ class RawNav():
 
         eph.mode = 2  # CNAV/2
         eph.tot = gpst2time(eph.week, tow)
-        if toe < tow - rCST.HALFWEEK_SEC:
+        if eph.toes < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
-        elif toe > tow + rCST.HALFWEEK_SEC:
+        elif eph.toes > tow + rCST.HALFWEEK_SEC:
             eph.week -= 1
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = eph.toe
-- 
2.43.0


From 54fdbddba84de108bab0f16ba7e5ff120c7040df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 125/156] fix: Galileo: week number is that of toe

---
 src/cssrlib/rawnav.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 18d048e..f4893d2 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -263,6 +263,7 @@ class RawNav():
             week_gst += 1
         elif toc > tow + rCST.HALFWEEK_SEC:
             week_gst -= 1
+        eph.week = week_gst + 1024
         eph.toe = gst2time(week_gst, eph.toes)
         eph.toc = gst2time(week_gst, toc)
 
@@ -350,6 +351,7 @@ class RawNav():
         elif toc > tow + rCST.HALFWEEK_SEC:
             week_gst -= 1
 
+        eph.week = week_gst + 1024
         eph.toe = gst2time(week_gst, eph.toes)
         eph.toc = gst2time(week_gst, toc)
 
-- 
2.43.0


From 46c56330c4d462f827de599a4106277bae728b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 126/156] fix: BDS CNAV: GPS time of transmission, week of
 toe/toc, B-CNAV3 week

---
 src/cssrlib/rawnav.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index f4893d2..d6e4cce 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -789,7 +789,6 @@ class RawNav():
 
         Aref = 27906100.0 if eph.sattype == 3 else 42162200.0
         eph.A = Aref + dA*2**-9
-        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
         return i
 
     def decode_bds_cnav_eph2(self, msg, eph, i):
@@ -815,13 +814,22 @@ class RawNav():
         toc, a0, a1, a2 = \
             bs.unpack_from('u11s25s22s11', msg, i)
         i += 69
-        tocs = toc*300.0
+        eph.tocs = toc*300.0
         eph.af0 = a0*rCST.P2_34
         eph.af1 = a1*rCST.P2_50
         eph.af2 = a2*rCST.P2_66
-        eph.toc = bdt2gpst(bdt2time(eph.week, tocs))
         return i
 
+    def set_bds_cnav_time(self, eph, tow):
+        """ set times of BDS CNAV ephemeris from time of transmission """
+        eph.tot = bdt2gpst(bdt2time(eph.week, tow))
+        if eph.toes < tow - rCST.HALFWEEK_SEC:
+            eph.week += 1
+        elif eph.toes > tow + rCST.HALFWEEK_SEC:
+            eph.week -= 1
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
+        eph.toc = bdt2gpst(bdt2time(eph.week, eph.tocs))
+
     def decode_bds_cnav_iono(self, msg, i):
         """ BDS CNAV message decoder for Ionoephere parameters """
         a1, a2, a3, a4, a5, a6, a7, a8, a9 = \
@@ -894,11 +902,11 @@ class RawNav():
             return None
 
         tow = how*3600+soh
-        eph.tot = bdt2time(eph.week, tow)
 
         i = self.decode_bds_cnav_eph1(msg, eph, i)
         i = self.decode_bds_cnav_eph2(msg, eph, i)
         i = self.decode_bds_cnav_clk(msg, eph, i)
+        self.set_bds_cnav_time(eph, tow)
         tgd_b2ap, isc_b1cd, tgd_b1cp = bs.unpack_from('s12s12s12', msg, i)
         eph.tgd = tgd_b1cp*rCST.P2_34
         eph.isc[0] = isc_b1cd*rCST.P2_34
@@ -1011,7 +1019,7 @@ class RawNav():
         eph.tgd_b = tgd_b2ap*rCST.P2_34
 
         eph.svh = hs
-        eph.tot = bdt2time(eph.week, sow1)
+        self.set_bds_cnav_time(eph, sow1)
         eph.mode = 2  # B-CNAV2
 
         return eph
@@ -1068,7 +1076,7 @@ class RawNav():
         eph.sisai[0], eph.svh = bs.unpack_from('u5u2', buff, i)
         i += 7
 
-        eph.tot = bdt2time(eph.week, sow1)
+        self.set_bds_cnav_time(eph, sow1)
         eph.mode = 3  # B-CNAV3
 
         return eph
-- 
2.43.0


From 286ffe92a8f20701c73b17f32601d7434cd28589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 127/156] fix: BDS D1/D2: toe and toc in GPS time and in the
 week nearest to transmission

---
 src/cssrlib/rawnav.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index d6e4cce..ee14d16 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1160,12 +1160,12 @@ class RawNav():
 
         eph.toes = ((toe1 << 15)+toe2)*8.0
         eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
-        if eph.toes > sow1+rCST.HALFWEEK_SEC:
+        if eph.toes < sow1-rCST.HALFWEEK_SEC:
             eph.week += 1
-        elif eph.toes < sow1-rCST.HALFWEEK_SEC:
+        elif eph.toes > sow1+rCST.HALFWEEK_SEC:
             eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        eph.toc = bdt2gpst(bdt2time(eph.week, toc))
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 1  # IGSO/MEO
         eph.mode = 0
@@ -1279,12 +1279,12 @@ class RawNav():
         eph.omg = ((omgp9 << 5)+omgp10)*rCST.P2_31*rCST.SC2RAD
 
         eph.tot = bdt2gpst(bdt2time(eph.week, sow_[0]))
-        if eph.toes > sow_[0]+302400.0:
+        if eph.toes < sow_[0]-302400.0:
             eph.week += 1
-        elif eph.toes < sow_[0]-302400.0:
+        elif eph.toes > sow_[0]+302400.0:
             eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        eph.toc = bdt2gpst(bdt2time(eph.week, toc))
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 2  # GEO
         eph.mode = 0
-- 
2.43.0


From eb446764ef3c0b7aa67999c292df055465fbd41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 128/156] fix: BDS D1: subframes of different frames are not
 combined

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index ee14d16..be156dc 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1109,8 +1109,8 @@ class RawNav():
         if id1 != 1 or id2 != 2 or id3 != 3:
             return None
 
-        # if sow2 != sow1+6 or sow3 != sow2+6:
-        #    return None
+        if sow2 != sow1+6 or sow3 != sow2+6:
+            return None
 
         eph = Eph(sat)
 
-- 
2.43.0


From 15f9094885ff761cbe0e60caedc1b6dfaca7c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 129/156] fix: BDS D2: mean anomaly, semi-major axis fields,
 page 3 continuity

---
 src/cssrlib/rawnav.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index be156dc..7371c49 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1199,7 +1199,8 @@ class RawNav():
                 return None
             sow_[k] = self.getbitu2(buff, 160*k+18, 8, 160*k+30, 12)
             if k == 2:
-                sow_[k] != sow_[k-2]+6
+                if sow_[k] != sow_[k-2]+6:
+                    return None
             elif k > 0 and sow_[k] != sow_[k-1]+3:
                 return None
 
@@ -1229,7 +1230,7 @@ class RawNav():
         # page 5
         i = 160*4
         cucp5 = bs.unpack_from('u4', buff, i+46)[0]
-        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 12, i+90, 8) * \
+        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 22, i+90, 8) * \
             rCST.P2_31*rCST.SC2RAD
         eph.cus = self.getbits2(buff, i+98, 14, i+120, 4)*rCST.P2_31
         ep5 = bs.unpack_from('s10', buff, i+124)[0]
@@ -1237,7 +1238,7 @@ class RawNav():
         # page 6
         i = 160*5
         ep6 = self.getbitu2(buff, i+46, 6, i+60, 16)
-        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, 120, 4)*rCST.P2_19
+        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, i+120, 4)*rCST.P2_19
         eph.A = sqrtA**2
         cicp6 = bs.unpack_from('s10', buff, i+124)[0]
 
-- 
2.43.0


From 9641c09ccd709e61828d75bb9f4e248017453fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 130/156] fix: NavIC: weeks of transmission and toe, continuous
 week number of L1NAV

---
 src/cssrlib/rawnav.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 7371c49..492a186 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1369,15 +1369,14 @@ class RawNav():
         eph.OMGd = OMGd*rCST.P2_41*rCST.SC2RAD
         eph.i0 = i0*rCST.P2_31*rCST.SC2RAD
 
+        eph.tot = gpst2time(eph.week, tow1)
+        if eph.toes < tow1-302400.0:
+            eph.week += 1
+        elif eph.toes > tow1+302400.0:
+            eph.week -= 1
         eph.toc = gpst2time(eph.week, toc)
         eph.toe = gpst2time(eph.week, eph.toes)
 
-        if eph.toes > tow1+302400.0:
-            week += 1
-        elif eph.toes < tow1-302400.0:
-            week -= 1
-        eph.tot = gpst2time(week, tow1)
-
         eph.mode = 0
         return eph
 
@@ -1555,9 +1554,14 @@ class RawNav():
         eph.cuc = cuc*rCST.P2_30
 
         eph.mode = 2  # L1NAV
-        eph.toe = gst2time(eph.week, eph.toes)
+        eph.week = wn + 1024  # continuous GPS week
+        eph.tot = gpst2time(eph.week, tow)
+        if eph.toes < tow-rCST.HALFWEEK_SEC:
+            eph.week += 1
+        elif eph.toes > tow+rCST.HALFWEEK_SEC:
+            eph.week -= 1
+        eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = eph.toe
-        eph.tot = gst2time(eph.week, tow)
 
         return eph
 
-- 
2.43.0


From 9cb52f477228afdbc2cb0851a8b5d9b8d7f6c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 131/156] fix: BDS D2: unsigned eccentricity

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 492a186..c90668f 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1233,7 +1233,7 @@ class RawNav():
         eph.M0 = self.getbits3(buff, i+50, 2, i+60, 22, i+90, 8) * \
             rCST.P2_31*rCST.SC2RAD
         eph.cus = self.getbits2(buff, i+98, 14, i+120, 4)*rCST.P2_31
-        ep5 = bs.unpack_from('s10', buff, i+124)[0]
+        ep5 = bs.unpack_from('u10', buff, i+124)[0]
 
         # page 6
         i = 160*5
-- 
2.43.0


From 523e992dd43f23876ade24ed2112a06b23fee3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 132/156] fix: OSNMA key chain uses the right week for every
 step after a week change

---
 src/cssrlib/osnma.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 57592c8..15cdb98 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -351,11 +351,8 @@ class osnma():
         # k_l=trunc(lk,hash(k_l+1||GST_SF_l||alp))
         klen_b = self.klen_t[self.ks]//8
         for k in range(ki):
-            gst_tow = gst_tow0 - 30*(k+1)
-            if gst_tow < 0:
-                gst_tow += 86400*7
-                gst_wn -= 1
-            gst = bs.pack('u12u20', gst_wn, gst_tow)
+            dw, gst_tow = divmod(gst_tow0 - 30*(k+1), 86400*7)
+            gst = bs.pack('u12u20', gst_wn + dw, gst_tow)
             msg = key + gst + self.alp
             key = self.process_hash(msg)[0:klen_b]
         return key
-- 
2.43.0


From a804a90d49cefe8ef8f5410c125641e6ae760b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 133/156] fix: OSNMA keys are verified against the last
 authentic key

---
 src/cssrlib/osnma.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 15cdb98..a106312 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -362,8 +362,11 @@ class osnma():
         if not self.status & uOSNMA.ROOTKEY_VERIFIED:  # root-key verified
             return False
         if self.status & uOSNMA.KEYCHAIN_VERIFIED:
-            key = self.update_key_chain(key, gst_wn, gst_tow0, 1)
-            result = (key == self.key_p)
+            # number of steps from the latest authenticated key
+            gst = self.set_gst_sf(gst_wn, gst_tow0)
+            ki = self.difftime(gst, self.gst_sf_c)//30
+            key = self.update_key_chain(key, gst_wn, gst_tow0, ki)
+            result = (ki > 0 and key == self.key)
         else:
             ki = ((gst_wn-self.wn)*86400*7 +
                   (self.gst_tow-self.towh*3600))//30+1
-- 
2.43.0


From 34e5843947e1ecd66ae92835fb73ddcdbce7af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 134/156] fix: OSNMA root key is verified again when its DSM is
 renewed

---
 src/cssrlib/osnma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index a106312..edeba79 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -382,6 +382,9 @@ class osnma():
 
     def decode_dsm_kroot(self, did):
         """ decode DSM-KROOT """
+        # the parameters are not trusted until the signature is verified
+        self.status &= ~(uOSNMA.ROOTKEY_LOADED | uOSNMA.ROOTKEY_VERIFIED |
+                         uOSNMA.KEYCHAIN_VERIFIED)
         v = bs.unpack_from('u4u4u2u2u2u2u4u4u8u4u12u8', self.dsm[did], 0)
         nb = v[0]+6   # number of blocks
         self.pkid = v[1]  # Public Key ID
-- 
2.43.0


From b6ac0f26b9444d3eb8abb43bf16092a28eee8faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 135/156] fix: OSNMA MAC look-up tables with other than six
 tags per subframe

---
 src/cssrlib/osnma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index edeba79..bca267b 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -567,7 +567,7 @@ class osnma():
         if self.nt*2 != len(adkd_t):
             return False
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
         for k in range(self.nt-1):
             tag, prn_d, adkd, cop = self.decode_tags_info(k+1)
             i = k + ofst + 1
@@ -596,7 +596,7 @@ class osnma():
             return False
         mode_t = self.mode_t[self.maclt]
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
 
         ltag_b = self.tag_len_t[self.ts]//8+2
         for k in range(self.nt):  # add FLEX taginfo
-- 
2.43.0


From 7ef4ff370157491b2238561f53d01ff2f5d5ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 136/156] fix: OSNMA self-authentication tags other than the
 first include PRND

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index bca267b..2aba792 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -740,7 +740,7 @@ class osnma():
         mlen = 141 if adkd == 4 else 549
         rem_ = mlen-mlen//8*8  # number of remaining bit
         j = 0
-        if adkd == 0 and self.prn_a == prn_d:
+        if ctr == 1:  # PRND is omitted only for Tag0
             mlen += 8+42
             mlen_b = (mlen+7)//8
             m = bytearray(mlen_b)
-- 
2.43.0


From 4fe201c3e021ef30c26226b278d712c52fb084df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 137/156] fix: OSNMA tags of 20 and 28 bits are taken from
 their bit positions

---
 src/cssrlib/osnma.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 2aba792..7b8a26d 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -534,19 +534,18 @@ class osnma():
         if not self.status & uOSNMA.ROOTKEY_LOADED:
             return False
         lt = self.tag_len_t[self.ts]
-        lt_b = lt//8
-        ltag_b = lt_b+2
-        i0 = k*ltag_b
-        tag_k = self.tag[i0:i0+ltag_b]
+        i0 = k*(lt+16)
+        tag = bytearray((lt+7)//8)
+        tag_info = bytearray(2)
+        copy_buff(self.tag, tag, i0, 0, lt)
+        copy_buff(self.tag, tag_info, i0+lt, 0, 16)
         if k == 0:
-            tag0 = tag_k[0:lt_b]
-            macseq = tag_k[lt_b:lt_b+2]  # MACSEQ(12)+res(4)
+            tag0 = tag
+            macseq = tag_info  # MACSEQ(12)+res(4)
             cop = macseq[1] & 0xf
             macseq[1] &= 0xf0
             return tag0, macseq, cop
         else:
-            tag = tag_k[0:lt_b]
-            tag_info = tag_k[lt_b:lt_b+2]
             # 1-36 Galileo SV, 255: Galileo constellation
             prn_d = tag_info[0]  # sv transmitting the data to be authenticated
             # ADKD Authentication Data and Key Delay
@@ -598,12 +597,13 @@ class osnma():
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
         ofst = 0 if gst_tow_p % 60 == 0 else self.nt
 
-        ltag_b = self.tag_len_t[self.ts]//8+2
+        lt = self.tag_len_t[self.ts]
         for k in range(self.nt):  # add FLEX taginfo
             if mode_t[k+ofst] != 2:
                 continue
-            i0 = k*ltag_b
-            msg += self.tag[i0+ltag_b-2:i0+ltag_b]
+            tag_info = bytearray(2)
+            copy_buff(self.tag, tag_info, k*(lt+16)+lt, 0, 16)
+            msg += tag_info
 
         macseq_c_ = self.process_mac(msg)
         tag0, macseq_, cop = self.decode_tags_info(0)
@@ -625,15 +625,16 @@ class osnma():
         lt = self.tag_len_t[self.ts]
         lk = self.klen_t[self.ks]
         self.nt = (480-lk)//(lt+16)  # number of tags
-        ltag_b = (lt+16)//8
         lm_b = 60
         i0 = (prn-1)*lm_b
         mack_p = self.mack_p[i0:i0+lm_b]  # previous MACK
         mack_c = self.mack_c[i0:i0+lm_b]  # current MACK
-        i0 = ltag_b*self.nt
-        self.tag = mack_p[0:i0]
-        self.key_p = mack_p[i0:i0+lk//8]
-        self.key_c = mack_c[i0:i0+lk//8]
+        i0 = (lt+16)*self.nt
+        self.tag = mack_p
+        self.key_p = bytearray(lk//8)
+        self.key_c = bytearray(lk//8)
+        copy_buff(mack_p, self.key_p, i0, 0, lk)
+        copy_buff(mack_c, self.key_c, i0, 0, lk)
         return True
 
     def load_gal_inav(self, msg):
@@ -776,8 +777,10 @@ class osnma():
         m = self.gen_msg(tag_.adkd, tag_.prn_d, tag_.gst_sf, tag_.cnt, msg)
 
         tag_c = self.process_mac(m)
-        lt_b = self.tag_len_t[self.ts]//8
-        result = (tag_c[:lt_b] == tag_.tag)
+        lt = self.tag_len_t[self.ts]
+        tag = bytearray((lt+7)//8)
+        copy_buff(tag_c, tag, 0, 0, lt)
+        result = (tag == tag_.tag)
         return result
 
     def save_auth_nav(self, result, tag_):
-- 
2.43.0


From 8cbea4e29a9e8c1d30aa951c702c0f4dd527a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 138/156] fix: OSNMA slow-MAC tags are verified exactly once

---
 src/cssrlib/osnma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 7b8a26d..654191a 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -977,7 +977,7 @@ class osnma():
                         print(f"{s} tag not verified")
             # slow MAC
             if self.flg_slowmac:
-                for tag_ in self.tag_list:
+                for tag_ in list(self.tag_list):
                     dt = self.difftime(self.gst_sf_p, tag_.gst_sf)
                     if dt == 300:
                         self.prn_a = tag_.prn_a
@@ -990,7 +990,7 @@ class osnma():
                                 print(f"Slow-MAC {s} verified")
                             else:
                                 print(f"{s} not verified")
-                    elif dt > 300:
+                    if dt >= 300:
                         self.tag_list.remove(tag_)
 
             self.nsat = self.count_valid_sat()
-- 
2.43.0


From a7934b8e980ce33a82fa2ab0e26f2f236b086488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 139/156] fix: rtcm: decode epoch of BDS network RTK messages
 at the beginning of the week

---
 src/cssrlib/rtcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 94a1696..03c3aa6 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1492,8 +1492,7 @@ class rtcm(cssr, rtcmUtil):
         i += sz
 
         if sys == uGNSS.BDS:
-            week, _ = time2bdt(gpst2bdt(gpst2time(self.week, tow)))
-            time = bdt2gpst(bdt2time(week, tow))
+            time = bdt2gpst(gpst2time(self.week, tow))
         elif sys == uGNSS.GLO:
             time = glo2time(self.time, tow)
         else:
-- 
2.43.0


From 4bbee82d61b5307967abcabb379f7ee591ff66b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 140/156] fix: rtcm: encode grid definition with rounded
 coordinates

---
 src/cssrlib/rtcm.py | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 03c3aa6..5b30c89 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4443,9 +4443,9 @@ class rtcme(cssre, rtcmUtil):
         if self.gtype == 0:  # grid type 0
             gid, ofst, lat, lon, alt = grid[0]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
-            alt_i = int((alt+1000)/12.5)
+            lat_i = round(lat/1e-3)
+            lon_i = round(lon/1e-3)
+            alt_i = round((alt+1000)/12.5)
 
             # Latitude of Reference Point DF+024
             # Longitude of Reference Point DF+025
@@ -4457,16 +4457,13 @@ class rtcme(cssre, rtcmUtil):
 
             for k in range(1, self.ng):
                 gid, ofst, lat_, lon_, alt_ = grid[k]
-                dlat = lat_-lat
-                dlon = lon_-lon
-                dalt = alt_-alt
-                lat = lat_
-                lon = lon_
-                alt = alt_
-
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
-                dalt_i = int(dalt/12.5)
+                # difference to the previous point as sent
+                dlat_i = round(lat_/1e-3)-lat_i
+                dlon_i = round(lon_/1e-3)-lon_i
+                dalt_i = round((alt_+1000)/12.5)-alt_i
+                lat_i += dlat_i
+                lon_i += dlon_i
+                alt_i += dalt_i
 
                 bs.pack_into('s13s14s9', msg, i, dlat_i, dlon_i, dalt_i)
                 i += 36
@@ -4474,8 +4471,8 @@ class rtcme(cssre, rtcmUtil):
         elif self.gtype == 1:  # grid type 1
             gid, ofst, lat, lon, alt = grid[0]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
+            lat_i = round(lat/1e-3)
+            lon_i = round(lon/1e-3)
 
             bs.pack_into('s18s19u12u8', msg, i, lat_i, lon_i,
                          self.ofst, self.ng-1)
@@ -4483,13 +4480,11 @@ class rtcme(cssre, rtcmUtil):
 
             for k in range(1, self.ng):
                 gid, ofst, lat_, lon_, _ = grid[k]
-                dlat = lat_-lat
-                dlon = lon_-lon
-                lat = lat_
-                lon = lon_
-
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
+                # difference to the previous point as sent
+                dlat_i = round(lat_/1e-3)-lat_i
+                dlon_i = round(lon_/1e-3)-lon_i
+                lat_i += dlat_i
+                lon_i += dlon_i
                 bs.pack_into('s13s14', msg, i, dlat_i, dlon_i)
                 i += 27
 
-- 
2.43.0


From b6f35fe9abc9694f4a191149de815c7c453edec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 141/156] fix: rtcm: number the points of grid type 1 as those
 of type 0

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 5b30c89..6b1b4e8 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3113,14 +3113,14 @@ class rtcm(cssr, rtcmUtil):
             self.pos0 = np.array([lat, lon, 0])
             self.ofst = ofst
 
-            for k in range(npnt):
+            for k in range(ofst, ofst+npnt):
                 dlat, dlon = bs.unpack_from('s13s14', msg, i)
                 i += 27
                 dlat_s = self.sval(dlat, 13, 1e-3)
                 dlon_s = self.sval(dlon, 14, 1e-3)
                 lat += dlat_s
                 lon += dlon_s
-                d = np.array([(gid, k, lat, lon, 0)], dtype=dtype0)
+                d = np.array([(gid, k+1, lat, lon, 0)], dtype=dtype0)
                 self.grid = np.append(self.grid, d)
                 self.dpos[k-ofst, :] = (dlat_s, dlon_s, 0)
 
-- 
2.43.0


From 3f0b399c5fac27d46308b521e8e891adc4342f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 142/156] fix: rtcm: decode tropospheric correction without
 residual part

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 6b1b4e8..9805d02 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3242,6 +3242,8 @@ class rtcm(cssr, rtcmUtil):
         # west-east gradient c10 [m/deg]
         ct[1, 2] = self.sval(ct10w, 15, 0.01e-3)
 
+        ofst, ng, rh, rw = 0, 0, None, None
+
         if rmi:  # residual information part
             ofst, ng, n, m = bs.unpack_from('u12u12u4u4', msg, i)
             i += 32
-- 
2.43.0


From a55b1fa8492e28358f52bdf3d9bfbc35a526d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 143/156] fix: rtcm: round ionospheric residuals and encode
 missing ones

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 9805d02..04b38b0 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4951,7 +4951,7 @@ class rtcme(cssre, rtcmUtil):
                         dlon = grid[j]['lon']-lon0
                         dstec += [dlat*dlon, dlat**2, dlon**2]@ci[3:]
 
-                    res = int(dstec/scl)
+                    res = self.ival(dstec, rlen, scl)
                     bs.pack_into(fmt, msg, i, res)
                     i += rlen
 
-- 
2.43.0


From a2e72475a4651a7b500bb217337b22aa2d3937bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 144/156] fix: rtcm: send ionospheric corrections in the order
 of the satellite mask

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 04b38b0..f7b913d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4891,7 +4891,7 @@ class rtcme(cssre, rtcmUtil):
         svid = []
         sat = []
         stype = 0
-        for sat_ in self.lc[inet].ci:
+        for sat_ in sorted(self.lc[inet].ci):
             sys, _ = sat2prn(sat_)
             if sys != sys_m:
                 continue
-- 
2.43.0


From 19ea7655a73476b12b10de13c733facee80a80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 145/156] fix: rtcm: decode every entry of a metadata message

---
 src/cssrlib/rtcm.py | 73 +++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index f7b913d..9e6fc3d 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2970,44 +2970,45 @@ class rtcm(cssr, rtcmUtil):
             i += 7
             return i
 
-        mpi = 0
-        # Model/Correction Part
-
-        # Model/Correction Type Indicator: DF+64
-        # 1:satellite antenna PCV, 2:satellite antenna GDV
-        # 3:solid earth tides, 4:ocean loading, 5:pole tides, 6:relatively
-        # 7:GNSS BE reference
-
-        # Model/Correction Application Indicator: DF+65 0:not applied,1:applied
-        # Non-Default Model/Correction Indicator: DF+66 0:default,1:non default
-        mt, ap, mi = bs.unpack_from('u5u1b1', msg, i)
-        i += 7
-        if mi:
-            # non-default model/correction id DF+67
-            # mci = bs.unpack_from('u3', msg, i)[0]
-            i += 3
-        iodmi = bs.unpack_from('b1', msg, i)[0]  # DF+68
-        i += 1
-        if iodmi:
-            # DF+69 model/correction data IOD
-            # iodm = bs.unpack_from('u6', msg, i)[0]
-            i += 6
-        if mi:
-            # DF+070 1:additional model parameter present
-            mpi = bs.unpack_from('b1', msg, i)[0]
+        for _ in range(nm):
+            mpi = 0
+            # Model/Correction Part
+
+            # Model/Correction Type Indicator: DF+64
+            # 1:satellite antenna PCV, 2:satellite antenna GDV
+            # 3:solid earth tides, 4:ocean loading, 5:pole tides, 6:relatively
+            # 7:GNSS BE reference
+
+            # Model/Correction Application Indicator: DF+65 0:not applied,1:applied
+            # Non-Default Model/Correction Indicator: DF+66 0:default,1:non default
+            mt, ap, mi = bs.unpack_from('u5u1b1', msg, i)
+            i += 7
+            if mi:
+                # non-default model/correction id DF+67
+                # mci = bs.unpack_from('u3', msg, i)[0]
+                i += 3
+            iodmi = bs.unpack_from('b1', msg, i)[0]  # DF+68
             i += 1
-        if mpi:
-            # number of additional model parameter bits DF+071
-            nb = bs.unpack_from('u8', msg, i)[0]
-            i += 8
-        if mi and mpi:
-            # aditional model parameter DF+072
-            # data = bs.unpack_from('u'+str(nb), msg, i)[0]
-            i += nb
+            if iodmi:
+                # DF+69 model/correction data IOD
+                # iodm = bs.unpack_from('u6', msg, i)[0]
+                i += 6
+            if mi:
+                # DF+070 1:additional model parameter present
+                mpi = bs.unpack_from('b1', msg, i)[0]
+                i += 1
+            if mpi:
+                # number of additional model parameter bits DF+071
+                nb = bs.unpack_from('u8', msg, i)[0]
+                i += 8
+            if mi and mpi:
+                # aditional model parameter DF+072
+                # data = bs.unpack_from('u'+str(nb), msg, i)[0]
+                i += nb
 
-        if mt == 7:  # GNSS BE Reference
-            gnss, be = bs.unpack_from('u4u4', msg, i)
-            i += 8
+            if mt == 7:  # GNSS BE Reference
+                gnss, be = bs.unpack_from('u4u4', msg, i)
+                i += 8
 
         return i
 
-- 
2.43.0


From 016930c80c830126ea7d398128588842197114ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 146/156] fix: qznma: LNAV reference time of ephemeris in qznma

---
 src/cssrlib/qznma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 7652cf9..91a1917 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -628,7 +628,7 @@ class qznma():
 
         tow = bs.unpack_from('u17', buff, 320*0+32+2)[0]*6
         toc = bs.unpack_from('u16', buff, 320*0+32*7+8+2)[0]
-        toe = bs.unpack_from('u16', buff, 320*0+32*9+2)[0]
+        toe = bs.unpack_from('u16', buff, 320*1+32*9+2)[0]
 
         navmsg = NavMsg(sys, uNavId.GPS_LNAV)
         navmsg.tow = tow
-- 
2.43.0


From 536b7445f186b16f07ea9d1c317c6690b2557961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 147/156] fix: qznma: do not verify QZSS messages before a
 signature is received

---
 src/cssrlib/qznma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 91a1917..cfe84ee 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -806,7 +806,7 @@ class qznma():
                             self.tow_p[sat], self.mask[sat], self.flag_e[sat] \
                                 = tow_, 0, 0
 
-                elif ki in (1, 2, 3):
+                elif self.tow_p[sat] >= 0 and ki in (1, 2, 3):
                     self.msg2nav(sat, ki, msg, uNavId.GPS_LNAV)
 
                 if self.flag_e[sat] == 7:
@@ -833,7 +833,7 @@ class qznma():
                         self.tow_p[sat], self.mask[sat], self.flag_e[sat] = \
                             tow_, 0, 0
 
-                elif ki in (1, 2, 3):
+                elif self.tow_p[sat] >= 0 and ki in (1, 2, 3):
                     # copy MT10,11,3x after RDS
                     self.msg2nav(sat, ki, msg, uNavId.GPS_CNAV)
 
-- 
2.43.0


From 417786c065d39e94b95ea5f7bff742801381c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 148/156] fix: qznma: ignore signatures of an undefined
 satellite

---
 src/cssrlib/qznma.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index cfe84ee..105eecd 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -407,6 +407,7 @@ class qznma():
 
     def svid2sat(self, svid):
         """ convert svid in QZNMA to sat """
+        sat = 0
         if svid <= 63:
             sat = prn2sat(uGNSS.GPS, svid)
         elif svid <= 127:
-- 
2.43.0


From bc0287d6507f16c274d2b1aa5e69dfd5dc0adc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 149/156] fix: ephemeris: accept YUMA almanacs of the next week

---
 src/cssrlib/ephemeris.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index ba901a3..053b57f 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -850,10 +850,8 @@ def loadyuma(fname, sys=uGNSS.GPS):
             elif v[0] == 'Af1(s/s)':
                 alm.af1 = float(v[1])
             elif v[0] == 'week':
-                alm.week = int(v[1])
-                alm.week += week_ref//1024*1024
-                if alm.week > week_ref:
-                    alm.week -= 1024
+                # latest week with this number, not after the next one
+                alm.week = week_ref+1-(week_ref+1-int(v[1])) % 1024
 
                 alm.sattype = 0
                 if sys == uGNSS.GPS or sys == uGNSS.QZS:
-- 
2.43.0


From b7d362edceff58b36e5c0a2a8eb3900635221e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 150/156] fix: ephemeris: resolve the week of Galileo XML
 almanacs around the issue date

---
 src/cssrlib/ephemeris.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 053b57f..964c861 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -761,7 +761,6 @@ def loadXmlAlmanac(fname, sys=uGNSS.GAL):
     ep = [d.year, d.month, d.day, d.hour, d.minute, d.second]
     tref = epoch2time(ep)
     week_ref, tow_ref = time2gst(tref)
-    week_ref = week_ref//4*4
 
     h = root.find('body').find('Almanacs')
     for sv in h.findall('svAlmanac'):
@@ -791,9 +790,11 @@ def loadXmlAlmanac(fname, sys=uGNSS.GAL):
         alm.af1 = float(alm_.find('af1').text)
         alm.ioda = float(alm_.find('iod').text)
         alm.toas = float(alm_.find('t0a').text)
-        wna = float(alm_.find('wna').text)
+        wna = int(alm_.find('wna').text)
 
-        alm.toa = gst2time(week_ref + wna, alm.toas)
+        # week nearest to the issue date
+        week = week_ref + (wna - week_ref + 2) % 4 - 2
+        alm.toa = gst2time(week, alm.toas)
         alm.svh = (sts_E5a << 4) | (sts_E5b << 2) | (sts_E1B)
 
         alm_t.append(alm)
-- 
2.43.0


From 38f246318c6674b68aa684c0ee78ba08c1a035d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 151/156] fix: ephemeris: propagate almanacs older than one
 week

---
 src/cssrlib/ephemeris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 964c861..67687a8 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -899,7 +899,7 @@ def alm2pos(t: gtime_t, alm: Alm):
     else:  # GPS,QZS
         mu = rCST.MU_GPS
         omge = rCST.OMGE
-    dt = dtadjust(t, alm.toa)
+    dt = timediff(t, alm.toa)
     n0 = np.sqrt(mu/alm.A**3)
     M = alm.M0+n0*dt
     E = M
-- 
2.43.0


From f19f6dc1e70c3405aa9f110bba2a88e5b5215363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 152/156] fix: ewss: epicenter code lost in the JMA earthquake
 and hypocenter reports

---
 src/cssrlib/ewss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 5e9e65f..f6c3414 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -331,9 +331,9 @@ class jmaDec(ewsDec):
                 s_ += self.pre_t[reg]+" "
             print(s_)
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
+        ep_ = time2epoch(self.time)
+        self.year = ep_[0]
+        self.month = ep_[1]
         self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
         self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
 
@@ -390,9 +390,9 @@ class jmaDec(ewsDec):
             print(f"depth={de}km mag={ma:.1f}")
             print(f"epicenter:{self.ep_t[ep]} lat {lat:.4f} lon {lon:.4f}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
+        ep_ = time2epoch(self.time)
+        self.year = ep_[0]
+        self.month = ep_[1]
         self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
 
         self.pos = [lat, lon]
-- 
2.43.0


From d6aedb92a44ee22e776ae802faf37eaee1c3879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 153/156] fix: ewss: arrival times of the JMA tsunami reports

---
 src/cssrlib/ewss.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index f6c3414..bae23e4 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -535,7 +535,8 @@ class jmaDec(ewsDec):
             if d == 0 and h == 0 and m == 0 and th == 0 and reg == 0:
                 continue
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
+            # d: 0: day of the report, 1: next day
+            tb = epoch2time([self.year, month, day+d, h, m, 0.0])
             self.tb.append(tb)
 
             self.params.append([th, reg])
@@ -555,6 +556,11 @@ class jmaDec(ewsDec):
         self.it, _, tp = bs.unpack_from('u2u10u3', msg, i)
         i += 15
 
+        ep = time2epoch(self.time)
+        self.year = ep[0]
+        self.month = ep[1]
+        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+
         self.tb = []
         self.params = []
         self.params.append(tp)
@@ -565,7 +571,8 @@ class jmaDec(ewsDec):
             th, reg = bs.unpack_from('u9u7', msg, i)
             i += 16
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
+            # d: 0: day of the report, 1: next day
+            tb = epoch2time([self.year, month, day+d, h, m, 0.0])
             self.tb.append(tb)
             self.params.append([th, reg])
 
@@ -578,11 +585,6 @@ class jmaDec(ewsDec):
                 f"NP Tsunami ({self.it}) {month:2d}/{day:02d} " +
                 f"{hour:2d}:{minute:02d}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-
         return i
 
     def decode_jma_volcano(self, msg, i):
-- 
2.43.0


From 55bcee2fd9d81acae13c5e1dc3b0460e08e6688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 154/156] fix: ewss: hazard names in the CAMF specific settings

---
 src/cssrlib/ewss.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index bae23e4..6040ddf 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1179,6 +1179,7 @@ class camfDec(ewsDec):
         self.d33 = None
         self.d34 = None
         self.d35 = None
+        self.d36 = None
 
         self.dow_t = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday',
                       'Saturday', 'Sunday')
@@ -1574,7 +1575,7 @@ class camfDec(ewsDec):
                 d16i = bs.unpack_from('u3', msg, i)[0]
                 self.d16 = self.d16_t[d16i]
 
-            elif hcat == THazard.WINDCHILL:  # Wind chill/frost
+            elif hcat == THazard.WIND_CHILL:  # Wind chill/frost
                 d8i, d6i = bs.unpack_from('u4u4', msg, i)
                 self.d8 = self.d8_t[d8i]
                 self.d6 = self.d6_t[d6i]
@@ -1591,7 +1592,7 @@ class camfDec(ewsDec):
                 self.d17 = self.d17_t[d17i]
                 self.d13 = self.d13_t[d13i]
 
-            elif hcat == THazard.SNOWSTORM:  # Snow storm/blizzard
+            elif hcat == THazard.SNOW_STORM:  # Snow storm/blizzard
                 d13i, d8i = bs.unpack_from('u4u4', msg, i)
                 self.d13 = self.d13_t[d13i]
                 self.d8 = self.d8_t[d8i]
@@ -1605,7 +1606,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.ASH_FALL:  # Ash fall
                 d20i = bs.unpack_from('u3', msg, i)[0]
                 self.d20 = self.d20_t[d20i]
-            elif hcat == THazard.WINDSURGE:  # Wind/wave/storm surge
+            elif hcat == THazard.WIND_SURGE:  # Wind/wave/storm surge
                 d8i, d5i = bs.unpack_from('u4u3', msg, i)
                 self.d8 = self.d8_t[d8i]
                 self.d5 = self.d5_t[d5i]
@@ -1615,7 +1616,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.TERRORISM:  # Terrorism
                 d22i = bs.unpack_from('u3', msg, i)[0]
                 self.d22 = self.d22_t[d22i]
-            elif hcat == THazard.FOREST_FIRE:  # Forest fire / risk of fire
+            elif hcat == THazard.RISK_OF_FIRE:  # Forest fire / risk of fire
                 d23i = bs.unpack_from('u3', msg, i)[0]
                 self.d23 = self.d23_t[d23i]
             elif hcat == THazard.CONTAMINATED_WATER:
-- 
2.43.0


From abc4f807a400f5184b52960ebbba564127ed729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 155/156] fix: ewss: onset of CAMF alerts received on Sunday

---
 src/cssrlib/ewss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 6040ddf..ffe3b40 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1393,8 +1393,10 @@ class camfDec(ewsDec):
         # wn: 0:current week, 1: next week
         # tow: 1:mon 00:00, 2:mon 00:01, 3:mon 00:02
         # .. sun 23:59
-        week, _ = time2gpst(self.time)
+        week, tow0 = time2gpst(self.time)
         week += wn
+        if tow0 < 86400:  # Sunday is the last day of the week in CAMF
+            week -= 1
 
         tow = (tow-1)*60+86400  # sec from sun
         if tow >= 604800:
-- 
2.43.0


From 72faee1587f71465d4f9b9036a999ff88f365b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 156/156] fix: ewss: international CAMF messages with
 monitoring output

---
 src/cssrlib/ewss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index ffe3b40..263c4ac 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1422,6 +1422,8 @@ class camfDec(ewsDec):
             # List B: Monitoring + Required action
             self.gmsg_a = self.list_a[ia]
             self.gmsg_b = self.list_b[ib]
+            inst, info = ia, ib
+            s = '{:s} {:s}'.format(self.gmsg_a, self.gmsg_b)
         else:  # 1:country/region (Japan..)
             if self.regi == 0b001101111:  # Japan
                 inst, info = bs.unpack_from('u2u8', msg, i)
-- 
2.43.0


From 1ec2c23a686966ef2bd28b15e741fbbd9241ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 001/212] fix: z80: CB rotates and shifts set P from the
 operand, not from A

---
 src/sims/z80.src/z80mac.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index 93696ed..b14fa5c 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -186,7 +186,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -201,7 +201,7 @@
       reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -220,7 +220,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -234,7 +234,7 @@
       reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
 }
 
@@ -246,7 +246,7 @@
     reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -264,7 +264,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -276,7 +276,7 @@
     reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -289,7 +289,7 @@
     reg = (reg << 1) | 1;				\
     if (reg == 0) regs.raf.F |= BIT_Z;			\
     if (reg & 0x80) regs.raf.F |= BIT_S;		\
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	\
+    if (parity(reg)) regs.raf.F |= BIT_P;	\
     xy(reg);						\
   }
 
-- 
2.43.0


From 2e7dce2ff7e6ac32dbf887c06dd74d75f4bfc838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 002/212] fix: z80: ADC and SBC take the carry into account
 when computing H

---
 src/sims/z80.src/z80mac.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index b14fa5c..d80a227 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -57,10 +57,11 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A + (signed char)(br);	\
+    unsigned int oper0= oper;						\
     if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
     regs.raf.F &= ~(BIT_ALL);  /* clear these */			\
     regs.raf.F &= ~BIT_N;      /* addition */				\
-    if ((accu & 0x0F) + (oper & 0x0F) > 0x0F)  regs.raf.F |= BIT_A;	\
+    if ((accu ^ oper0 ^ (accu + oper)) & 0x10) regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))           regs.raf.F |= BIT_P;	\
     if (accu + oper > 0xFF)                    regs.raf.F |= BIT_C;	\
     regs.raf.A += oper;							\
@@ -96,10 +97,11 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)(reg);				\
     signed int res = (signed short)regs.HL + (signed short)(reg);	\
+    unsigned int oper0= oper;						\
     if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
     regs.raf.F &= ~(BIT_ALL);        /* clear these */			\
     regs.raf.F &= ~BIT_N;            /* addition */			\
-    if ((accu & 0x0FFF) + (oper & 0x0FFF) > 0x0FFF) regs.raf.F |= BIT_A; \
+    if ((accu ^ oper0 ^ (accu + oper)) & 0x1000)    regs.raf.F |= BIT_A; \
     if ((res < -32768) || (res > 32767))            regs.raf.F |= BIT_P; \
     if (accu + oper > 0xFFFF)                       regs.raf.F |= BIT_C; \
     regs.HL += oper;							\
@@ -128,10 +130,11 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A - (signed char)(br);	\
+    unsigned int oper0= oper;						\
     if (regs.raf.F & BIT_C) { ++oper; --res; }				\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0F) < (oper & 0x0F))      regs.raf.F |= BIT_A;	\
+    if ((accu ^ oper0 ^ (accu - oper)) & 0x10)  regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))        regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.raf.A -= oper;							\
@@ -145,10 +148,11 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)reg;				\
     signed int res = (signed short)regs.HL - (signed short)(reg);	\
+    unsigned int oper0= oper;						\
     if (regs.raf.F & BIT_C) { ++oper; --res; }				\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0FFF) < (oper & 0x0FFF))  regs.raf.F |= BIT_A;	\
+    if ((accu ^ oper0 ^ (accu - oper)) & 0x1000)  regs.raf.F |= BIT_A;	\
     if ((res < -32768) || (res > 32767))    regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.HL -= oper;							\
-- 
2.43.0


From c441d67b9eb3dd1a5c3bc12350d121ef2d7c1b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 003/212] fix: z80: 16 bit memory accesses wrap at the end of
 the address space

---
 src/sims/z80.src/z80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 3d186e5..c237bea 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -1111,7 +1111,7 @@ void cl_z80::store1( u16_t addr, t_mem val ) {
 
 void cl_z80::store2( u16_t addr, u16_t val ) {
   ram->write(addr,   val & 0xff);
-  ram->write(addr+1, (val >> 8) & 0xff);
+  ram->write((u16_t)(addr+1), (val >> 8) & 0xff);
 }
 
 u8_t  cl_z80::get1( u16_t addr ) {
@@ -1122,7 +1122,7 @@ u16_t  cl_z80::get2( u16_t addr ) {
   u16_t  l, h;
   
   l = ram->read(addr  );
-  h = ram->read(addr+1);
+  h = ram->read((u16_t)(addr+1));
   
   return (h << 8) | l;
 }
-- 
2.43.0


From b0d1873b2489e4133efaf600d4403ae01286a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 004/212] fix: z80: relative jumps keep PC inside the 64k
 address space

---
 src/sims/z80.src/inst.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 5a20dd8..51fbaac 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -730,7 +730,7 @@ cl_z80::inst_djnz(t_mem code)
   j = fetch1();
   //tick(7);
   if ((--regs.bc.h != 0)) {
-    PC += j;
+    PC = (PC + j) & 0xffff;
     //tick(5);
     cond_true= true;
   } else {
@@ -771,33 +771,33 @@ cl_z80::inst_jr(t_mem code)
   //tick(6);
   switch(code) {
     case 0x18: // JR dd
-      PC += j;
+      PC = (PC + j) & 0xffff;
       //tick(5);
     break;
     case 0x20: // JR NZ,dd
       if (!(regs.raf.F & BIT_Z)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x28: // JR Z,dd
       if ((regs.raf.F & BIT_Z)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x30: // JR NC,dd
       if (!(regs.raf.F & BIT_C)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x38: // JR C,dd
       if ((regs.raf.F & BIT_C)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
-- 
2.43.0


From 510d2dbad6fa84d75ee112cb70002c7ed9b69796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 005/212] fix: z80: CALL reads its operand before it pushes the
 return address

---
 src/sims/z80.src/inst.cc | 47 +++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 51fbaac..ce592da 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -1390,13 +1390,16 @@ cl_z80::inst_ret(t_mem code)
 int
 cl_z80::inst_call(t_mem code)
 {
+  u16_t addr;
+
   switch(code)
     {
     case 0xC4: // CALL NZ,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_Z)) {
-        push2(PC+2);
-        PC = fetch2();
+        addr = fetch2();
+        push2(PC);
+        PC = addr;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1407,8 +1410,9 @@ cl_z80::inst_call(t_mem code)
     case 0xCC: // CALL Z,nnnn
       //tick(9);
       if (regs.raf.F & BIT_Z) {
-        push2(PC+2);
-        PC = fetch2();
+        addr = fetch2();
+        push2(PC);
+        PC = addr;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1417,16 +1421,18 @@ cl_z80::inst_call(t_mem code)
       }
       break;
     case 0xCD: // CALL nnnn
-      push2(PC+2);
-      PC = fetch2();
+      addr = fetch2();
+      push2(PC);
+      PC = addr;
       vc.wr+= 2;
       //tick(16);
       break;
     case 0xD4: // CALL NC,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_C)) {
-        push2(PC+2);
-        PC = fetch2();
+        addr = fetch2();
+        push2(PC);
+        PC = addr;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1437,8 +1443,9 @@ cl_z80::inst_call(t_mem code)
     case 0xDC: // CALL C,nnnn
       //tick(9);
       if (regs.raf.F & BIT_C) {
-        push2(PC+2);
-        PC = fetch2();
+        addr = fetch2();
+        push2(PC);
+        PC = addr;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1449,8 +1456,9 @@ cl_z80::inst_call(t_mem code)
     case 0xE4: // CALL PO,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_P)) {
-        push2(PC+2);
-        PC = fetch2();
+        addr = fetch2();
+        push2(PC);
+        PC = addr;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1461,8 +1469,9 @@ cl_z80::inst_call(t_mem code)
     case 0xEC: // CALL PE,nnnn
       //tick(9);
       if (regs.raf.F & BIT_P) {
-        push2(PC+2);
-        PC = fetch2();
+        addr = fetch2();
+        push2(PC);
+        PC = addr;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1473,8 +1482,9 @@ cl_z80::inst_call(t_mem code)
     case 0xF4: // CALL P,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_S)) {
-        push2(PC+2);
-        PC = fetch2();
+        addr = fetch2();
+        push2(PC);
+        PC = addr;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1485,8 +1495,9 @@ cl_z80::inst_call(t_mem code)
     case 0xFC: // CALL M,nnnn
       //tick(9);
       if (regs.raf.F & BIT_S) {
-        push2(PC+2);
-        PC = fetch2();
+        addr = fetch2();
+        push2(PC);
+        PC = addr;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
-- 
2.43.0


From 22e4d7a8c4fc9ea340d029509a14d581026a13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 006/212] fix: z80: IN r,(C) sets S, Z and H

---
 src/sims/z80.src/inst_ed.cc | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 2310ff3..9955464 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -86,7 +86,9 @@ int  cl_z80::inst_ed_(t_mem code)
     {
     case 0x40: // IN B,(C)
       regs.bc.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.bc.h);
+      SET_Z(regs.bc.h);
       if (parity(regs.bc.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -143,7 +145,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x48: // IN C,(C)
       regs.bc.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.bc.l);
+      SET_Z(regs.bc.l);
       if (parity(regs.bc.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -188,7 +192,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x50: // IN D,(C)
       regs.de.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.de.h);
+      SET_Z(regs.de.h);
       if (parity(regs.de.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -228,7 +234,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x58: // IN E,(C)
       regs.de.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.de.l);
+      SET_Z(regs.de.l);
       if (parity(regs.de.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -274,7 +282,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x60: // IN H,(C)
       regs.hl.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.hl.h);
+      SET_Z(regs.hl.h);
       if (parity(regs.hl.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -314,7 +324,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x68: // IN L,(C)
       regs.hl.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.hl.l);
+      SET_Z(regs.hl.l);
       if (parity(regs.hl.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -354,7 +366,9 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x70: // IN (C)  set flags only (TSTI)
       {
         u8_t x= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-        regs.raf.F &= ~(BIT_N | BIT_P);
+        regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+        SET_S(x);
+        SET_Z(x);
         if (parity(x)) regs.raf.F |= BIT_P;
         vc.rd++;
 	//tick(11);
@@ -381,7 +395,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x78: // IN A,(C)
       regs.raf.A= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
       if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
-- 
2.43.0


From e6d8f6aa0503b1603fefc0e9c0fca8bd67c116b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 007/212] fix: z80: RETN and RETI leave IFF2 unchanged

---
 src/sims/z80.src/inst_ed.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 9955464..66e47e1 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -127,7 +127,6 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x45: // RETN (return from non-maskable interrupt)
       pop2(PC);
       IFF1= IFF2;
-      IFF2= false;
       vc.rd+= 2;      
       //tick(13);
       return(resGO);
@@ -180,7 +179,6 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x4D: // RETI (return from interrupt)
       pop2(PC);
       IFF1= IFF2;
-      IFF2= false;
       vc.rd+= 2;
       //tick(13);
       return(resGO);
-- 
2.43.0


From 10960b830ab9528e448a1c9e9ee401956ee880b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 008/212] fix: z80: RRD and RLD set the flags

---
 src/sims/z80.src/inst_ed.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 66e47e1..1ee8031 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -317,6 +317,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp >> 4) | (regs.raf.A << 4));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp & 0x0f);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
+      regs.raf.F &= ~(BIT_A | BIT_P | BIT_N);
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
@@ -358,6 +362,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp << 4) | (regs.raf.A & 0x0f));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp >> 4);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
+      regs.raf.F &= ~(BIT_A | BIT_P | BIT_N);
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
-- 
2.43.0


From 898182bf5bf4665c8861fa45ca9104bd14a7ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 009/212] fix: z80: OUTI and OTIR address the port with C

---
 src/sims/z80.src/inst_ed.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 1ee8031..6f7c004 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -473,7 +473,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xA3: // OUTI
       regs.bc.h--;
-      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
       vc.wr++;
       vc.rd++;
       SET_Z(regs.bc.h);
@@ -619,7 +619,7 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0xB3: // OTIR
       //do {
         regs.bc.h--;
-        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
         vc.wr++;
         vc.rd++;
         SET_Z(regs.bc.h);
-- 
2.43.0


From 399077e6ad6576b2bfddd24fc18b2d788e73f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 010/212] fix: z80: CPI, CPD, CPIR and CPDR follow the manual
 (HL step, flags, C kept)

---
 src/sims/z80.src/inst_ed.cc | 131 ++++++++++++++++++------------------
 1 file changed, 65 insertions(+), 66 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 6f7c004..3826e55 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -445,15 +445,21 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0xA1: // CPI
-      // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
+      // compare acc with mem(HL), incr HL, decr BC.  C is not affected
       {
         unsigned char tmp;
+        u8_t orgc= regs.raf.F & BIT_C;
         tmp = get1(regs.HL);
         cp_bytereg(tmp);
+        regs.raf.F &= ~(BIT_P | BIT_C);
+        regs.raf.F |= orgc;
         ++regs.HL;
         --regs.BC;
-        if (regs.BC != 0) regs.raf.F |= BIT_P;
-	//tick(15);
+        vc.rd++;
+        if (regs.BC != 0)
+          {
+            regs.raf.F |= BIT_P;
+          }
       }
       return(resGO);
 
@@ -499,17 +505,22 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
       
     case 0xA9: // CPD
-/* fixme: checkme, compare to other emul. */
-
-      regs.raf.F &= ~(BIT_ALL);  /* clear these */
-      if ((regs.raf.A - get1(regs.HL)) == 0) {
-        regs.raf.F |= (BIT_Z | BIT_P);
+      // compare acc with mem(HL), decr HL, decr BC.  C is not affected
+      {
+        unsigned char tmp;
+        u8_t orgc= regs.raf.F & BIT_C;
+        tmp = get1(regs.HL);
+        cp_bytereg(tmp);
+        regs.raf.F &= ~(BIT_P | BIT_C);
+        regs.raf.F |= orgc;
+        --regs.HL;
+        --regs.BC;
+        vc.rd++;
+        if (regs.BC != 0)
+          {
+            regs.raf.F |= BIT_P;
+          }
       }
-      ++regs.HL;
-      --regs.BC;
-      if (regs.BC != 0) regs.raf.F |= BIT_P;
-      vc.rd++;
-      //tick(15);
       return(resGO);
 
     case 0xAA: // IND
@@ -562,35 +573,28 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0xB1: // CPIR
-      // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      regs.raf.F &= ~(BIT_P | BIT_A | BIT_Z | BIT_S);  /* clear these */
-      regs.raf.F |= BIT_N;
-      //do {
-        if((regs.raf.A - get1(regs.HL)) == 0)
-          regs.raf.F |= BIT_Z;
-        else
-          regs.raf.F &= ~(BIT_Z);
-        if((regs.raf.A - get1(regs.HL)) & 0x80)
-          regs.raf.F |= BIT_S;
-        else
-          regs.raf.F &= ~(BIT_S);
-/* fixme: set BIT_A correctly. */
+      // compare acc with mem(HL), incr HL, decr BC.  C is not affected
+      {
+        unsigned char tmp;
+        u8_t orgc= regs.raf.F & BIT_C;
+        tmp = get1(regs.HL);
+        cp_bytereg(tmp);
+        regs.raf.F &= ~(BIT_P | BIT_C);
+        regs.raf.F |= orgc;
         ++regs.HL;
         --regs.BC;
         vc.rd++;
-	//tick(15);
-	//if (regs.BC) //tick(5);
-	//} while (regs.BC != 0 && (regs.raf.F & BIT_Z) == 0);
-	if(regs.BC)
-	  {
-	    regs.raf.F |= BIT_P;
-	    if (!(regs.raf.F & BIT_Z))
-	      {
-		cond_true= true;
-		repeating= true;
-		PC= instPC;
-	      }
-	  }
+        if (regs.BC != 0)
+          {
+            regs.raf.F |= BIT_P;
+            if (!(regs.raf.F & BIT_Z))
+              {
+                cond_true= true;
+                repeating= true;
+                PC= instPC;
+              }
+          }
+      }
       return(resGO);
 
     case 0xB2: // INIR
@@ -660,35 +664,30 @@ int  cl_z80::inst_ed_(t_mem code)
 	  }
       return(resGO);
     case 0xB9: // CPDR
+      // compare acc with mem(HL), decr HL, decr BC.  C is not affected
       {
-	bool gotit= false;
-	// compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-	regs.raf.F &= ~(BIT_ALL);  /* clear these */
-	//do {
-	  if ((regs.raf.A - get1(regs.HL)) == 0) {
-	    regs.raf.F |= (BIT_Z | BIT_P);
-	    gotit= true;
-	  }
-	  else
-	    {
-	      --regs.HL;
-	      --regs.BC;
-	      vc.rd++;
-	    }
-	  //tick(15);
-	  //if (regs.BC) //tick(5);
-	  //} while (regs.BC != 0);
-	  if (regs.BC)
-	    {
-	      if (!gotit)
-		{
-		  repeating= true;
-		  cond_true= true;
-		  PC= instPC;
-		}
-	    }
-	return(resGO);
+        unsigned char tmp;
+        u8_t orgc= regs.raf.F & BIT_C;
+        tmp = get1(regs.HL);
+        cp_bytereg(tmp);
+        regs.raf.F &= ~(BIT_P | BIT_C);
+        regs.raf.F |= orgc;
+        --regs.HL;
+        --regs.BC;
+        vc.rd++;
+        if (regs.BC != 0)
+          {
+            regs.raf.F |= BIT_P;
+            if (!(regs.raf.F & BIT_Z))
+              {
+                cond_true= true;
+                repeating= true;
+                PC= instPC;
+              }
+          }
       }
+      return(resGO);
+
     case 0xBA: // INDR
       //do {
         this->store1(regs.HL, inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l));
-- 
2.43.0


From 241b9d90b0dd40877f12e709cff65dca972757ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 011/212] fix: z80: LDDR sets P while BC is not zero

---
 src/sims/z80.src/inst_ed.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 3826e55..d3de581 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -661,6 +661,7 @@ int  cl_z80::inst_ed_(t_mem code)
 	    repeating= true;
 	    cond_true= true;
 	    PC= instPC;
+	    regs.raf.F|= BIT_P;
 	  }
       return(resGO);
     case 0xB9: // CPDR
-- 
2.43.0


From e2aa72c23489a085da34dd6d12c75bf154f8b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 012/212] fix: validate_address folds the address right after
 the last one, too

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 92cdbd0..5ca8218 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -179,7 +179,7 @@ cl_memory::validate_address(t_addr addr)
 {
   while (addr < start_address)
     addr+= size;
-  if (addr > start_address+size)
+  if (addr >= start_address+size)
     {
       addr-= start_address;
       addr%= size;
-- 
2.43.0


From d4644304a1182974f1577c991e966f613c4a5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 013/212] fix: is_slot of a memory chip computes the index from
 the size of a slot

---
 src/core/sim.src/mem.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 5ca8218..a36e6c1 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2129,12 +2129,7 @@ cl_memory_chip::is_slot(void *data_ptr, t_addr *addr_of)
   if (p > &(a[alloc_size-1]))
     return false;
   t_addr i= p - a;
-  if (width <= 8)
-    /*i*/;
-  if (width <= 16)
-    i= i/2;
-  if (width <= 32)
-    i= i/4;
+  i= i/bwidth;
   if (addr_of)
     *addr_of= i;
   return true;
-- 
2.43.0


From 2e2de664b5e2a10d8527e412ce19225e4394ccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 014/212] fix: inc_address wraps correctly when it steps below
 the first address

---
 src/core/sim.src/mem.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index a36e6c1..9e1addf 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -153,13 +153,11 @@ cl_memory::valid_address(t_addr addr)
 t_addr
 cl_memory::inc_address(t_addr addr, int val)
 {
-  if (!start_address)
-    return(((signed)addr+val)%size);
-  addr-= start_address;
-  addr+= val;
-  addr%= size;
-  addr+= start_address;
-  return(addr);
+  i64_t a= (i64_t)addr - start_address + val;
+  a%= (i64_t)size;
+  if (a < 0)
+    a+= size;
+  return(start_address + (t_addr)a);
 }
 
 t_addr
-- 
2.43.0


From b9b4f68c9910686fb3b522edecc3a8993f9dc785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 015/212] fix: address decoder is refused if its last address
 is over the end of the chip

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 9e1addf..e18d4c1 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2357,7 +2357,7 @@ cl_address_decoder::activate(class cl_console_base *con)
       D("Specified area is out of address space\n");
       return(false);
     }
-  if (as_end-as_begin > memchip->get_size()-chip_begin)
+  if (as_end-as_begin >= memchip->get_size()-chip_begin)
     {
       D("Specified area is out of chip size\n");
       return(false);
-- 
2.43.0


From 3cb444df6480839fade69be43f523fcd83b1fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 016/212] fix: redefining a bank does not leave the banked area
 undecoded

---
 src/core/sim.src/mem.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index e18d4c1..53dc919 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2707,8 +2707,12 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   ad->init();
   if (banks[bank_nr])
     {
+      // keep the window decoded when the old definition goes away
+      banks[bank_nr]->address_space= NULL;
       delete banks[bank_nr];
       banks[bank_nr]= 0;
+      if (bank == bank_nr)
+	bank= -1;
     }
   banks[bank_nr]= ad;
   /*
-- 
2.43.0


From 2f4702ae4effa2fa3ed1dffbac9621a3ffdbd2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 017/212] fix: event breakpoint does not hide the hw element of
 the cell

---
 src/core/sim.src/mem.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 53dc919..cf1a8e8 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1429,7 +1429,8 @@ cl_memory_cell::set_brk(class cl_uc *uc, class cl_brk *brk)
       break;
     }
   if (op)
-    append_operator(op);
+    // last operator gives the value of a read: it must be the hw if there is one
+    prepend_operator(op);
 }
 
 void
-- 
2.43.0


From 9dd25f0d778ba53e58a51071951726375bb6195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 018/212] fix: temporary event breakpoint is deleted when it is
 accepted

---
 src/core/sim.src/uc.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f03c52c..838cef0 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3844,6 +3844,16 @@ cl_uc::check_events(void)
 	(class cl_ev_brk *)(events->object_at(i));
       brk->breaking();
     }
+  // temporary breakpoints are deleted when they are accepted
+  for (i= ebrk->count-1; i >= 0; i--)
+    {
+      class cl_brk *brk= (class cl_brk *)(ebrk->at(i));
+      t_index idx;
+      if (brk->perm == brkDYNAMIC &&
+	  events->index_of(brk, &idx))
+	ebrk->del_bp(i, 0);
+    }
+  events->disconn_all();
 }
 
 void
-- 
2.43.0


From 1eb2dd4edc8e658736e624863327d9ea07f9cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 019/212] fix: reading a character at the end of a file does
 not hang

---
 src/core/utils.src/fio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 837a48a..184603c 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -921,7 +921,7 @@ int
 cl_f::get_c(void)
 {
   int c;
-  while (!check_dev())
+  while (!check_dev() && !eof())
     ;
   int i= read_dev(&c, 1);
   if (i > 0)
-- 
2.43.0


From a9e2ebd76a43b00b00a6d6bde9e01b9772575eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 020/212] fix: OMF content records are loaded to their own
 address

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 838cef0..ff3cf0f 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1733,7 +1733,7 @@ cl_uc::read_omf_file(class cl_inspec *is, cl_f *f, bool check)
 	  int i= 3;
 	  while (i < rec.len)
 	    {
-	      set_rom(is, addr+i, rec.rec[i], check);
+	      set_rom(is, addr+i-3, rec.rec[i], check);
 	      written++;
 	      i++;
 	    }
-- 
2.43.0


From 82226c1422b032c07cf1271e363595e3822dbe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 021/212] fix: S19 byte address is converted to word address
 once

---
 src/core/sim.src/uc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index ff3cf0f..9d28bbb 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2079,8 +2079,8 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
   if (is->get_mem()->width > 8)
     {
       if (is->get_mem()->width <= 16) a/= 2;
-      if (is->get_mem()->width <= 24) a/= 3;
-      if (is->get_mem()->width <= 32) a/= 4;
+      else if (is->get_mem()->width <= 24) a/= 3;
+      else if (is->get_mem()->width <= 32) a/= 4;
     }
   while (b < data_bytes)
     {
-- 
2.43.0


From 37ed7ded489ce9d3067b66a496cf6ee532394e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 022/212] fix: hex loader of wide memories does not clear word
 0, handles 24 bit words and extended addresses

---
 src/core/sim.src/uc.cc | 43 +++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 9d28bbb..b33aae1 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1582,6 +1582,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
   uchar dnum;     // data number
   uchar rtyp=0;   // record type
   uint  addr= 0;  // address
+  uint  waddr= 0; // address of next word in memory
   uchar rec[300]; // data record
   uchar sum ;     // checksum
   uchar chk ;     // check
@@ -1631,21 +1632,22 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 		{
 		  if (rtyp == 0)
 		    {
+		      waddr= base+addr;
 		      if (mem->width > 8)
 			{
 			  if (mem->width <= 16)
-			    addr/= 2;
+			    waddr/= 2;
 			  else if (mem->width <= 24)
-			    addr/= 3;
+			    waddr/= 3;
 			  else if (mem->width <= 32)
-			    addr/= 4;
+			    waddr/= 4;
 			}
 		      for (i= 0; i < dnum; i++)
 			{
 			  if (mem->width <= 8)
 			    {
-			      set_rom(is, base+addr, rec[i], check);
-			      addr++;
+			      set_rom(is, waddr, rec[i], check);
+			      waddr++;
 			      written++;
 			    }
 			  else if (mem->width <= 16)
@@ -1654,13 +1656,31 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 				{
 				case 0: lows[0]= rec[i]; get_low++; break;
 				case 1: lows[1]= rec[i];
-				  set_rom(is, base+addr, (lows[1]*256)+lows[0], check);
-				  addr++;
+				  set_rom(is, waddr, (lows[1]*256)+lows[0], check);
+				  waddr++;
 				  written++;
 				  get_low= 0;
 				  break;
 				}
 			    }
+			  else if (mem->width <= 24)
+			    {
+			      switch (get_low)
+				{
+				case 0: lows[0]= rec[i]; get_low++; break;
+				case 1: lows[1]= rec[i]; get_low++; break;
+				case 2: lows[2]= rec[i];
+				  set_rom(is, waddr,
+					  (lows[2]<<16)+
+					  (lows[1]<<8)+
+					  (lows[0]),
+					  check);
+				  get_low= 0;
+				  waddr++;
+				  written++;
+				  break;
+				}
+			    }
 			  else if (mem->width <= 32)
 			    {
 			      switch (get_low)
@@ -1669,7 +1689,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 				case 1: lows[1]= rec[i]; get_low++; break;
 				case 2: lows[2]= rec[i]; get_low++; break;
 				case 3: lows[3]= rec[i];
-				  set_rom(is, base+addr,
+				  set_rom(is, waddr,
 					  (lows[3]<<24)+
 					  (lows[2]<<16)+
 					  (lows[1]<<8)+
@@ -1677,7 +1697,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 					  check);
 				  get_low= 0;
 				  lows[3]= lows[2]= lows[1]= lows[0]= 0;
-				  addr++;
+				  waddr++;
 				  written++;
 				  break;
 				}
@@ -1704,11 +1724,12 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 	    fprintf(stderr, "Read error in record %ld.\n", recnum);
 	}
     }
-  if (mem->width > 8)
+  if (get_low > 0)
     {
+      // last word is incomplete
       for (i= get_low; i<4; i++)
 	lows[i]= 0;
-      set_rom(is, addr,
+      set_rom(is, waddr,
 	      (lows[3]<<24)+
 	      (lows[2]<<16)+
 	      (lows[1]<<8)+
-- 
2.43.0


From bd4a00ac8a9000c75c86292080717851c4b0fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 023/212] fix: file content is loaded into the selected memory
 and never into an undefined bank

---
 src/core/sim.src/mem.cc |  4 ++--
 src/core/sim.src/uc.cc  | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index cf1a8e8..894dbab 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2780,10 +2780,10 @@ cl_banker::switch_to(int bank_nr, class cl_console_base *con)
   void *data;
   class cl_memory_cell *c;
 
+  if ((b < 0) || (b >= nuof_banks) || (banks[b] == NULL))
+    return false;
   if (b == bank)
     return true;
-  if (banks[b] == NULL)
-    return true;
   s= as_end - as_begin + 1;
   for (i= 0; i < s; i++)
     {
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index b33aae1..91d9129 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1495,33 +1495,43 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
       return eq;
     }
   // address space
+  class cl_address_space *as= (class cl_address_space *)mem;
   t_addr la= mem->lowest_valid_address();
   t_addr ha= mem->highest_valid_address();
   if ((addr >= la) && (addr <= ha))
     {
       if (check)
 	{
-	  v= rom->read(addr);
+	  v= mem->read(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
 	}
       else
-	rom->download(addr, val);
+	as->download(addr, val);
       return eq;
     }
   t_addr bank, caddr;
   bank= addr / size;
   caddr= addr % size;
-  class cl_banker *d= (class cl_banker *)(rom->get_decoder_of(caddr));
+  class cl_banker *d= (class cl_banker *)(as->get_decoder_of(caddr));
   if (d)
     {
       if (!d->is_banker())
 	{
 	  return true;
 	}
-      d->switch_to(bank, NULL);
-      rom->download(caddr, val);
+      if (!d->switch_to(bank, NULL))
+	return eq;
+      if (check)
+	{
+	  v= as->read(caddr);
+	  if (!(eq= val == v))
+	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
+				   AU32(addr), MU32(val), MU32(v));
+	}
+      else
+	as->download(caddr, val);
       d->activate(NULL);
     }
   else
-- 
2.43.0


From c223ac963da8d5ade8e5eea83f50400a114b16ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 024/212] fix: last line of asc and p2h files is loaded, too

---
 src/core/sim.src/uc.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 91d9129..13a3f2e 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1778,13 +1778,20 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 {
   int c;
   chars line= chars();
-  bool in;
+  bool in, end= false;
   t_addr addr= 0;
   
   in= true;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  while (!end)
     {
+      end= f->eof();
+      c= end?'\n':(f->get_c());
+      if (c <= 0)
+	{
+	  // end of file terminates the last line
+	  c= '\n';
+	  end= true;
+	}
       if (in)
 	{
 	  if ((c=='\n') || (c=='\r'))
@@ -1830,9 +1837,17 @@ cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
   chars line= chars();
   int c;
   long nr= 0;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  bool end= false;
+  while (!end)
     {
+      end= f->eof();
+      c= end?'\n':(f->get_c());
+      if (c <= 0)
+	{
+	  // end of file terminates the last line
+	  c= '\n';
+	  end= true;
+	}
       if ((c=='\n') || (c=='\r'))
 	{
 	  line.trim();
-- 
2.43.0


From a639d10ffd2c95dde8fdaa98c7b1e5fdf91d9b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 025/212] fix: last character of a file without a final newline
 is not lost

---
 src/core/utils.src/fio.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 184603c..1a9539d 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -946,15 +946,14 @@ cl_f::get_s(void)
 	return s;
       c= get_c();
     }
-  if (eof())
-    return s;
-  s+= c;
-  c= get_c();
-  while (!eof() &&
-	 (c != '\n') &&
+  while ((c != '\n') &&
 	 (c != '\r'))
     {
+      if (!c && eof())
+	return s;
       s+= c;
+      if (eof())
+	return s;
       c= get_c();
     }
   return s;
-- 
2.43.0


From 80458dd3fed0fc2d049a8adafd93208048176168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 026/212] fix: byte 0xff of a binary file is not taken as
 missing input

---
 src/core/utils.src/fio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 1a9539d..06910f1 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -686,7 +686,7 @@ cl_f::process(char c)
 	  echo_write(&c, 1);
 	}
       last_ln= 0;
-      return put(c);
+      return put(ci);
     }
 
   int l= strlen(line);
-- 
2.43.0


From 7d47437f613c92ebf13aba0e235e08cf7fc820c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 027/212] fix: 8080/8085 parity is reported in the P flag and
 not in carry

---
 src/sims/i8085.src/i8085.cc |  2 +-
 src/sims/i8085.src/ialu.cc  | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index 6c63c08..b4f9c22 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -267,7 +267,7 @@ cl_i8085::DSUB(t_mem code)
   r&= 0xffff;
   if (!r) rF|= flagZ;
   if (((a&0xfff) + (b&0xfff)) > 0xfff) rF|= flagA;
-  rF|= ptab[r>>8];
+  if (ptab[r>>8]) rF|= flagP;
   cHL.W(r);
   cF.W(rF);
   return resGO;
diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 80a87f0..45485b5 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -45,7 +45,7 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
       rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
-  rF|= ptab[res];
+  if (ptab[res]) rF|= flagP;
   cA.W(res);
   cF.W(rF);
   return resGO;
@@ -67,7 +67,7 @@ cl_i8080::sub8(u8_t op, bool sub_c, bool cmp)
   if ((rA&0xf)+(op&0xf) > 0xf) rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
-  rF|= ptab[res];
+  if (ptab[res]) rF|= flagP;
   if (!cmp) cA.W(res);
   cF.W(rF);
   return 0;
@@ -97,7 +97,7 @@ cl_i8080::inr(class cl_memory_cell &op)
   if ((a&0xf) == 0xf) rF|= flagA;
   rF|= ADDV8(a,1,res);
   rF|= X5(res);
-  rF|= ptab[res];
+  if (ptab[res]) rF|= flagP;
   op.W(res);
   cF.W(rF);
   return resGO;
@@ -114,7 +114,7 @@ cl_i8080::dcr(class cl_memory_cell &op)
   if (((a&0xf)+(m1&0xf)) > 0xf) rF|= flagA;
   rF|= ADDV8(a, m1, res);
   rF|= X5(res);
-  rF|= ptab[res];
+  if (ptab[res]) rF|= flagP;
   op.W(res);
   cF.W(rF);
   return resGO;
@@ -147,7 +147,7 @@ cl_i8080::ana(u8_t op)
   if (!res) rF|= flagZ;
   if (res&0x80) rF|= flagS;
   rF|= X5(res);
-  rF|= ptab[res];
+  if (ptab[res]) rF|= flagP;
   cA.W(res);
   cF.W(rF);
   return resGO;
@@ -161,7 +161,7 @@ cl_i8080::ora(u8_t op)
   if (!res) rF|= flagZ;
   if (res&0x80) rF|= flagS;
   rF|= X5(res);
-  rF|= ptab[res];
+  if (ptab[res]) rF|= flagP;
   cA.W(res);
   cF.W(rF);
   return resGO;
@@ -175,7 +175,7 @@ cl_i8080::xra(u8_t op)
   if (!res) rF|= flagZ;
   if (res&0x80) rF|= flagS;
   rF|= X5(res);
-  rF|= ptab[res];
+  if (ptab[res]) rF|= flagP;
   cA.W(res);
   cF.W(rF);
   return resGO;
-- 
2.43.0


From 2f8afe9dc5da527b8366f308918362e54b0fc3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 028/212] fix: 8080/8085 carries of ADC, SUB, SBB and CMP

---
 src/sims/i8085.src/ialu.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 45485b5..55b131e 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -31,9 +31,8 @@ int
 cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 {
   u16_t res;
-  if (add_c && (rF & flagC))
-    op++;
-  res= rA+op;
+  u8_t c= (add_c && (rF & flagC))?1:0;
+  res= rA+op+c;
   rF&= ~fAll_A;
   if (!is_daa) rF&= ~flagA;
   if (res>0xff) rF|= flagC;
@@ -41,7 +40,7 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
   res&= 0xff;
   if (!res) rF|= flagZ;
   if (!is_daa)
-    if ((rA&0xf)+(op&0xf) > 0xf)
+    if ((rA&0xf)+(op&0xf)+c > 0xf)
       rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
@@ -54,17 +53,15 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 int
 cl_i8080::sub8(u8_t op, bool sub_c, bool cmp)
 {
-  u16_t orga= rA, orgb= op;
-  if (sub_c && (rF & flagC))
-    op++;
-  op= ~op+1;
-  u16_t res= rA+op;
+  u8_t c= (sub_c && (rF & flagC))?0:1;
+  op= ~op;
+  u16_t res= rA+op+c;
   rF&= ~fAll;
-  if (/*res<=0xff*/orga<orgb) rF|= flagC;
+  if (res<=0xff) rF|= flagC;
   if (res&0x80) rF|= flagS;
   res&= 0xff;
   if (!res) rF|= flagZ;
-  if ((rA&0xf)+(op&0xf) > 0xf) rF|= flagA;
+  if ((rA&0xf)+(op&0xf)+c > 0xf) rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
   if (ptab[res]) rF|= flagP;
-- 
2.43.0


From 3751c1fed9944c8d9cc4ff77c44b1ccae802687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 029/212] fix: 8080/8085 DAA keeps carry, sets all flags and
 corrects the high digit properly

---
 src/sims/i8085.src/i8080cl.h |  2 +-
 src/sims/i8085.src/ialu.cc   | 33 +++++++++------------------------
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index b4b3abd..5032377 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -203,7 +203,7 @@ public:
   virtual int SPHL(t_mem code);
   
   // Arithmetic
-  virtual int add8(u8_t op, bool add_c, bool is_daa= false);
+  virtual int add8(u8_t op, bool add_c);
   virtual int sub8(u8_t op, bool sub_c, bool cmp);
   virtual int ana(u8_t op);
   virtual int ora(u8_t op);
diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 55b131e..aba788c 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -28,20 +28,17 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #include "i8080cl.h"
 
 int
-cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
+cl_i8080::add8(u8_t op, bool add_c)
 {
   u16_t res;
   u8_t c= (add_c && (rF & flagC))?1:0;
   res= rA+op+c;
-  rF&= ~fAll_A;
-  if (!is_daa) rF&= ~flagA;
+  rF&= ~fAll;
   if (res>0xff) rF|= flagC;
   if (res&0x80) rF|= flagS;
   res&= 0xff;
   if (!res) rF|= flagZ;
-  if (!is_daa)
-    if ((rA&0xf)+(op&0xf)+c > 0xf)
-      rF|= flagA;
+  if ((rA&0xf)+(op&0xf)+c > 0xf) rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
   if (ptab[res]) rF|= flagP;
@@ -241,28 +238,16 @@ cl_i8080::RAR(t_mem code)
 int
 cl_i8080::DAA(t_mem code)
 {
-  u8_t corr= 0;
+  u8_t corr= 0, c= rF & flagC;
   if (((rA & 0xf) > 9) || (rF & flagA))
     corr= 6;
-  u8_t v= rA>>4, c= 10;
-  if (corr==6)
-    c= 9;
-  if ((v >= c) || (rF & flagC))
-    corr|= 0x60;
-  if (corr)
+  if ((rA > 0x99) || c)
     {
-      /*u8_t org= rA;
-      rF&= ~(flagS|flagZ|flagV|flagP|flagK);
-      rA+= corr;
-      if (rA&0x80) rF|= flagS;
-      if (!rA) rF|= flagZ;
-      rF|= ADDV8(org, corr, rA);
-      rF|= X5(rA);
-      rF|= ptab[rA];
-      cF.W(rF);
-      cA.W(rA);*/
-      add8(corr, false, true);
+      corr|= 0x60;
+      c= flagC;
     }
+  add8(corr, false);
+  cF.W(rF | c);
   return resGO;
 }
 
-- 
2.43.0


From e3d41e49d4dc4bd235a46fab2560fade56433617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 030/212] fix: 8080/8085 RST 2, 3, 6 and 7 use their own vector

---
 src/sims/i8085.src/ibranch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/ibranch.cc b/src/sims/i8085.src/ibranch.cc
index 2e9cef4..aadf8b2 100644
--- a/src/sims/i8085.src/ibranch.cc
+++ b/src/sims/i8085.src/ibranch.cc
@@ -98,7 +98,7 @@ cl_i8080::PCHL(t_mem code)
 int
 cl_i8080::rst(t_mem code)
 {
-  u16_t a= code & 0x28;
+  u16_t a= code & 0x38;
   push2(PC);
   PC= a;
   return resGO;
-- 
2.43.0


From 69eb593446963208071d8556aa1b2b9706f863a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 031/212] fix: 8080/8085 POP PSW keeps the fixed bits of the
 flag register

---
 src/sims/i8085.src/i8080cl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index 5032377..8d8c004 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -198,7 +198,7 @@ public:
   virtual int POP_B(t_mem code) { cBC.W(pop2()); return resGO; }
   virtual int POP_D(t_mem code) { cDE.W(pop2()); return resGO; }
   virtual int POP_H(t_mem code) { cHL.W(pop2()); return resGO; }
-  virtual int POP_PSW(t_mem code) { cAF.W(pop2()); return resGO; }
+  virtual int POP_PSW(t_mem code) { u16_t v= pop2(); cA.W(v>>8); cF.W(v); return resGO; }
   virtual int XTHL(t_mem code);
   virtual int SPHL(t_mem code);
   
-- 
2.43.0


From 4e51ea526e7d8ae146d1e8c0376edd1f1a4e7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 032/212] fix: 16 bit data at the end of the memory continues
 at its beginning

---
 src/core/sim.src/uc.cc      | 2 +-
 src/sims/i8085.src/imove.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 13a3f2e..7e0c24a 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2940,7 +2940,7 @@ cl_uc::read_addr(class cl_memory *m, t_addr start_addr)
 {
   if (!m) return 0;
   // 16 bit little endian, by default
-  return m->read(start_addr) + 256*m->read(start_addr+1);
+  return m->read(start_addr) + 256*m->read(m->inc_address(start_addr, 1));
 }
 
 /*
diff --git a/src/sims/i8085.src/imove.cc b/src/sims/i8085.src/imove.cc
index a9bb054..faf643f 100644
--- a/src/sims/i8085.src/imove.cc
+++ b/src/sims/i8085.src/imove.cc
@@ -72,7 +72,7 @@ cl_i8080::SHLD_a16(t_mem code)
 {
   u16_t a= fetch16();
   rom->write(a, rL);
-  rom->write(a+1, rH);
+  rom->write((a+1)&0xffff, rH);
   vc.wr+= 2;
   return resGO;
 }
@@ -124,7 +124,7 @@ cl_i8080::XTHL(t_mem code)
   u16_t temp= read_addr(rom, rSP);
   vc.rd+= 2;
   rom->write(rSP, rL);
-  rom->write(rSP+1, rH);
+  rom->write((rSP+1)&0xffff, rH);
   vc.wr+= 2;
   cHL.W(temp);
   return resGO;
-- 
2.43.0


From ad726bde92a55a6c7bf599373cdecac44c986de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 033/212] fix: MCS51 MOVC wraps around at the end of the code
 memory

---
 src/sims/s51.src/mov.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/mov.cc b/src/sims/s51.src/mov.cc
index 19c912e..a6796f1 100644
--- a/src/sims/s51.src/mov.cc
+++ b/src/sims/s51.src/mov.cc
@@ -123,7 +123,7 @@ cl_51core::instruction_78/*inst_mov_rn_Sdata*/(t_mem/*uchar*/ code)
 int
 cl_51core::instruction_83/*inst_movc_a_Sa_pc*/(t_mem/*uchar*/ code)
 {
-  acc->write(rom->read(PC + acc->read()));
+  acc->write(rom->read(rom->validate_address(PC + acc->read())));
   tick(1);
   vc.rd++;
   //vc.wr++;
@@ -222,7 +222,7 @@ cl_51core::instruction_93/*inst_movc_a_Sa_dptr*/(t_mem/*uchar*/ code)
 {
   u16_t h= /*sfr*/dptr->read(/*DPH*/1);
   u16_t l= /*sfr*/dptr->read(/*DPL*/0);
-  acc->write(rom->read(h*256 + l +  acc->read()));
+  acc->write(rom->read(rom->validate_address(h*256 + l +  acc->read())));
   tick(1);
   vc.rd+= 3;//4;
   //vc.wr++;
-- 
2.43.0


From 48fcbdf78a698b8f7cd2045a79e54caf15a13504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 034/212] fix: MCS51 parity flag can not be overwritten

---
 src/sims/s51.src/uc51.cc  | 12 +++++++++++-
 src/sims/s51.src/uc51cl.h |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index cdab683..40dbf30 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1990,7 +1990,8 @@ cl_uc51_cpu::init(void)
     {
       fprintf(stderr, "No SFR to register %s[%d] into\n", id_string, id);
     }
-  cell_psw= sfr->get_cell(PSW);//use_cell(sfr, PSW);
+  cell_psw= register_cell(sfr, PSW);
+  cell_p  = register_cell(bas, PSW);
   cell_acc= register_cell(sfr, ACC);
   cell_sp= register_cell(sfr, SP);
   for (i= 0; i < 8; i++)
@@ -2055,6 +2056,15 @@ cl_uc51_cpu::write(class cl_memory_cell *cell, t_mem *val)
       if (*val > uc->sp_most)
 	uc->sp_most= *val;
     }
+  else if (cell == cell_psw)
+    {
+      // P always shows parity of ACC
+      *val= (*val & ~bmP) | ptab51[cell_acc->get()];
+    }
+  else if (cell == cell_p)
+    {
+      *val= ptab51[cell_acc->get()];
+    }
   else // ACC and its bits
     {
       uchar uc, n= *val;
diff --git a/src/sims/s51.src/uc51cl.h b/src/sims/s51.src/uc51cl.h
index de60f77..22044c9 100644
--- a/src/sims/s51.src/uc51cl.h
+++ b/src/sims/s51.src/uc51cl.h
@@ -296,7 +296,7 @@ enum uc51cpu_cfg {
 class cl_uc51_cpu: public cl_hw
 {
 protected:
-  class cl_memory_cell *cell_acc, *cell_sp, *cell_psw;
+  class cl_memory_cell *cell_acc, *cell_sp, *cell_psw, *cell_p;
   class cl_memory_cell *acc_bits[8];
 public:
   chars movxri_expr;
-- 
2.43.0


From 294f4dc5213eb46054f6c6370b8f6f33dec7e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 035/212] fix: 6502 addresses wrap around at the end of the
 memory

---
 src/sims/mos6502.src/ibranch.cc | 2 +-
 src/sims/mos6502.src/mos6502.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/mos6502.src/ibranch.cc b/src/sims/mos6502.src/ibranch.cc
index 51acdc2..28f38c0 100644
--- a/src/sims/mos6502.src/ibranch.cc
+++ b/src/sims/mos6502.src/ibranch.cc
@@ -68,7 +68,7 @@ int
 cl_mos6502::RTS(t_mem code)
 {
   t_addr spbef= rSP;
-  PC= pop_addr()+1;
+  PC= (pop_addr()+1) & 0xffff;
   class cl_stack_ret *op= new cl_stack_ret(instPC, PC, spbef, rSP);
   op->init();
   stack_read(op);
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 78910b8..e715e46 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -487,7 +487,7 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   l= m->read(start_addr);
-  h= m->read(start_addr+1);
+  h= m->read((start_addr+1) & 0xffff);
   return h*256+l;
 }
 
-- 
2.43.0


From 560805fb0c837ba6590e4252d63bcdbdb8ef230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 036/212] fix: 6502 pointers in zero page do not extend into
 page one

---
 src/sims/mos6502.src/mos6502.cc  | 17 +++++++++++++----
 src/sims/mos6502.src/mos6502cl.h |  1 +
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index e715e46..ee88dbe 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -491,6 +491,16 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
   return h*256+l;
 }
 
+// pointer in zero page, its high byte is in zero page too
+t_addr
+cl_mos6502::read_zp_addr(u8_t zp_addr)
+{
+  u8_t h, l;
+  l= rom->read(zp_addr);
+  h= rom->read((u8_t)(zp_addr+1));
+  return h*256+l;
+}
+
 class cl_cell8 &
 cl_mos6502::imm8(void)
 {
@@ -580,8 +590,7 @@ cl_mos6502::ind(void)
 class cl_cell8 &
 cl_mos6502::zind(void)
 {
-  u16_t a= fetch();
-  a= read_addr(rom, a);
+  u16_t a= read_zp_addr(fetch());
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 2;
   tick(4);
@@ -592,7 +601,7 @@ class cl_cell8 &
 cl_mos6502::indX(void)
 {
   u8_t a0= fetch() + rX;
-  u16_t a= read_addr(rom, a0);
+  u16_t a= read_zp_addr(a0);
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 3;
   tick(5);
@@ -602,7 +611,7 @@ cl_mos6502::indX(void)
 class cl_cell8 &
 cl_mos6502::indY(void)
 {
-  u16_t a1= read_addr(rom, fetch());
+  u16_t a1= read_zp_addr(fetch());
   u16_t a2= a1 + rY;
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a2);
   vc.rd+= 3;
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 7e063e2..2af03c5 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -135,6 +135,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr read_zp_addr(u8_t zp_addr);
 
   virtual void print_regs(class cl_console_base *con);
   virtual int inst_length(t_addr addr);
-- 
2.43.0


From e02995995b43dc527ea1872deb1bcefdde97c011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 037/212] fix: 6502 clock cycles of BRK, JSR and NOP

---
 src/sims/mos6502.src/ibranch.cc  | 1 +
 src/sims/mos6502.src/inst.cc     | 1 +
 src/sims/mos6502.src/mos6502.cc  | 2 +-
 src/sims/mos6502.src/mos65c02.cc | 2 +-
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims/mos6502.src/ibranch.cc b/src/sims/mos6502.src/ibranch.cc
index 28f38c0..8d76aea 100644
--- a/src/sims/mos6502.src/ibranch.cc
+++ b/src/sims/mos6502.src/ibranch.cc
@@ -61,6 +61,7 @@ cl_mos6502::JSR(t_mem code)
   op->init();
   stack_write(op);
   PC= a;
+  tick(3);
   return resGO;
 }
 
diff --git a/src/sims/mos6502.src/inst.cc b/src/sims/mos6502.src/inst.cc
index 677740d..321608c 100644
--- a/src/sims/mos6502.src/inst.cc
+++ b/src/sims/mos6502.src/inst.cc
@@ -31,6 +31,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 int
 cl_mos6502::NOP(t_mem code)
 {
+  tick(1);
   return resGO;
 }
 
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index ee88dbe..9da2d3b 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -715,7 +715,7 @@ cl_mos6502::accept_it(class it_level *il)
 {
   class cl_it_src *is= il->source;
 
-  tick(2);
+  tick((is==src_brk)?1:2); // fetch of BRK is already counted
   push_addr(PC);
   rom->write(SPh + rSP, rF|0x20);
   if (set_b)
diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index d69a9c8..19c76fc 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -91,7 +91,7 @@ cl_mos65c02::accept_it(class it_level *il)
 {
   class cl_it_src *is= il->source;
 
-  tick(2);
+  tick((is==src_brk)?1:2); // fetch of BRK is already counted
   push_addr(PC);
   rom->write(0x0100 + rSP, rF|0x20);
   if (set_b)
-- 
2.43.0


From 0b4de8f515a6052f5f646abb128e25a44ad4cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 038/212] fix: 6502 indexed writes take a fixed number of clock
 cycles

---
 src/sims/mos6502.src/mos6502.cc   | 27 +++++++++++++++++++++++++++
 src/sims/mos6502.src/mos6502cl.h  | 16 ++++++++++------
 src/sims/mos6502.src/mos65c02cl.h |  2 +-
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 9da2d3b..b55b5b2 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -621,6 +621,33 @@ cl_mos6502::indY(void)
   return *c;
 }
 
+class cl_cell8 &
+cl_mos6502::wabsX(void)
+{
+  u16_t a= i16() + rX;
+  vc.rd++;
+  tick(4);
+  return *(class cl_cell8 *)rom->get_cell(a);
+}
+
+class cl_cell8 &
+cl_mos6502::wabsY(void)
+{
+  u16_t a= i16() + rY;
+  vc.rd++;
+  tick(4);
+  return *(class cl_cell8 *)rom->get_cell(a);
+}
+
+class cl_cell8 &
+cl_mos6502::windY(void)
+{
+  u16_t a= read_zp_addr(fetch()) + rY;
+  vc.rd+= 3;
+  tick(5);
+  return *(class cl_cell8 *)rom->get_cell(a);
+}
+
 u8_t
 cl_mos6502::L2i(u8_t L)
 {
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 2af03c5..5374e42 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -166,24 +166,28 @@ public:
   virtual class cl_cell8 &zind(void);
   virtual class cl_cell8 &indX(void);
   virtual class cl_cell8 &indY(void);
+  // indexed operands of writes always take the extra cycle
+  virtual class cl_cell8 &wabsX(void);
+  virtual class cl_cell8 &wabsY(void);
+  virtual class cl_cell8 &windY(void);
   // write operands
   virtual class cl_cell8 &dstzpg(void) { vc.wr++; return zpg(); }
   virtual class cl_cell8 &dstzpgX(void) { vc.wr++; return zpgX(); }
   virtual class cl_cell8 &dstzpgY(void) { vc.wr++; return zpgY(); }
   virtual class cl_cell8 &dstabs(void) { vc.wr++; return abs(); }
-  virtual class cl_cell8 &dstabsX(void) { vc.wr++; return absX(); }
-  virtual class cl_cell8 &dstabsY(void) { vc.wr++; return absY(); }
+  virtual class cl_cell8 &dstabsX(void) { vc.wr++; return wabsX(); }
+  virtual class cl_cell8 &dstabsY(void) { vc.wr++; return wabsY(); }
   virtual class cl_cell8 &dstind(void) { vc.wr++; return ind(); }
   virtual class cl_cell8 &dstzind(void) { vc.wr++; return zind(); }
   virtual class cl_cell8 &dstindX(void) { vc.wr++; return indX(); }
-  virtual class cl_cell8 &dstindY(void) { vc.wr++; return indY(); }
+  virtual class cl_cell8 &dstindY(void) { vc.wr++; return windY(); }
   // read-modify-write operands
   virtual class cl_cell8 &rmwzpg(void) { vc.rd++;vc.wr++;tick(2); return zpg(); }
   virtual class cl_cell8 &rmwzpgX(void) { vc.rd++;vc.wr++;tick(2); return zpgX(); }
   virtual class cl_cell8 &rmwzpgY(void) { vc.rd++;vc.wr++;tick(2); return zpgY(); }
   virtual class cl_cell8 &rmwabs(void) { vc.rd++;vc.wr++;tick(2); return abs(); }
-  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;vc.wr++;tick(3); return absX(); }
-  virtual class cl_cell8 &rmwabsY(void) { vc.rd++;vc.wr++;tick(3); return absY(); }
+  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;vc.wr++;tick(2); return wabsX(); }
+  virtual class cl_cell8 &rmwabsY(void) { vc.rd++;vc.wr++;tick(2); return wabsY(); }
   virtual class cl_cell8 &rmwind(void) { vc.rd++;vc.wr++;tick(1); return ind(); }
   virtual class cl_cell8 &rmwzind(void) { vc.rd++;vc.wr++;tick(1); return zind(); }
   virtual class cl_cell8 &rmwindX(void) { vc.rd++;vc.wr++;tick(1); return indX(); }
@@ -264,7 +268,7 @@ public:
   virtual int STAzx(t_mem code) { return sta(dstzpgX()); }
   virtual int STAay(t_mem code) { return sta(dstabsY()); }
   virtual int STAa (t_mem code) { return sta(dstabs()); }
-  virtual int STAax(t_mem code) { tick(1); return sta(dstabsX()); }
+  virtual int STAax(t_mem code) { return sta(dstabsX()); }
 
   virtual int lda(class cl_cell8 &op);
   virtual int LDAix(t_mem code) { return lda(indX()); }
diff --git a/src/sims/mos6502.src/mos65c02cl.h b/src/sims/mos6502.src/mos65c02cl.h
index 0bc4a98..1aa2d71 100644
--- a/src/sims/mos6502.src/mos65c02cl.h
+++ b/src/sims/mos6502.src/mos65c02cl.h
@@ -50,7 +50,7 @@ class cl_mos65c02: public cl_mos6502
   virtual int stz(class cl_cell8 &op);
   
   // New insts in column 0
-  virtual int BRA(t_mem code) { return branch(true); tick(1); }
+  virtual int BRA(t_mem code) { return branch(true); }
   // New insts in column 2
   virtual int ORAzi(t_mem code) { return ora(zind()); }
   virtual int ANDzi(t_mem code) { return And(zind()); }
-- 
2.43.0


From 431c1c9e6a3ad80fb685f4a7ad9c07455d6704d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 039/212] fix: 6800 load and store instructions clear Z and
 leave C alone

---
 src/core/motorola.src/imove68.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index 8d01847..e4f4bb8 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -40,7 +40,7 @@ cl_m6800::clr(class cl_memory_cell &dest)
 int
 cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -51,7 +51,7 @@ cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -62,7 +62,7 @@ cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
@@ -73,7 +73,7 @@ cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 int
 cl_m6800::stsx(t_addr a, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
   rom->write(a+1, op&0xff);
   vc.wr+= 2;
-- 
2.43.0


From bb93f5acd22befd805d3fdc56b94a02acae7ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 040/212] fix: 6800 ADC counts carry in when it sets H

---
 src/core/motorola.src/ialu68.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/ialu68.cc b/src/core/motorola.src/ialu68.cc
index 5875a64..ebb60ee 100644
--- a/src/core/motorola.src/ialu68.cc
+++ b/src/core/motorola.src/ialu68.cc
@@ -90,7 +90,7 @@ cl_m6800::add(class cl_memory_cell &dest, u8_t op, bool c)
   a7= a&0x80; na7= a7^0x80;
   b7= b&0x80; nb7= b7^0x80;
   r7= r&0x80; nr7= r7^0x80;
-  if ((a&0xf) + (b&0xf) > 0xf) f|= flagH;
+  if ((a&0xf) + (b&0xf) + ((c && orgc)?1:0) > 0xf) f|= flagH;
   if (r7) f|= flagN;
   if (!r) f|= flagZ;
   if ((a7&b7&nr7) | (na7&nb7&r7)) f|= flagV;
-- 
2.43.0


From 293623210ad114f726d11eeb123b81fe197daad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 041/212] fix: 6800 addresses of 16 bit operands wrap around at
 64k

---
 src/core/motorola.src/imove68.cc | 2 +-
 src/core/motorola.src/m6800.cc   | 2 +-
 src/core/motorola.src/m6801.cc   | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index e4f4bb8..ad0f409 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -75,7 +75,7 @@ cl_m6800::stsx(t_addr a, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
-  rom->write(a+1, op&0xff);
+  rom->write((a+1)&0xffff, op&0xff);
   vc.wr+= 2;
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 629d145..b827e5b 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -464,7 +464,7 @@ cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   h= m->read(start_addr);
-  l= m->read(start_addr+1);
+  l= m->read((start_addr+1)&0xffff);
   return h*256 + l;
 }
 
diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 076102a..778ae09 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -210,7 +210,7 @@ cl_m6801::std(t_addr addr)
     rF|= flagZ;
   cCC.W(rF);
   rom->write(addr, rA);
-  rom->write(addr+1, rB);
+  rom->write((addr+1)&0xffff, rB);
   vc.wr+= 2;
   return resGO;
 }
@@ -220,7 +220,7 @@ int
 cl_m6801::PSHX(t_mem code)
 {
   rom->write(rSP  , rIX);
-  rom->write(rSP-1, rIX>>8);
+  rom->write((rSP-1)&0xffff, rIX>>8);
   cSP.W(rSP-2);
   vc.wr+= 2;
   return resGO;
@@ -230,7 +230,7 @@ cl_m6801::PSHX(t_mem code)
 int
 cl_m6801::PULX(t_mem code)
 {
-  rIX= rom->read(rSP+1) * 256 + rom->read(rSP+2);
+  rIX= rom->read((rSP+1)&0xffff) * 256 + rom->read((rSP+2)&0xffff);
   cIX.W(rIX);
   cSP.W(rSP+2);
   vc.rd+= 2;
-- 
2.43.0


From 282f372dd6b3a947dd320918351a73d4f2516013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 042/212] fix: 6800 indexed JMP wraps at 64k and uses selected
 index register

---
 src/core/motorola.src/ibranch68.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/motorola.src/ibranch68.cc b/src/core/motorola.src/ibranch68.cc
index f502866..16404e2 100644
--- a/src/core/motorola.src/ibranch68.cc
+++ b/src/core/motorola.src/ibranch68.cc
@@ -64,9 +64,7 @@ cl_m6800::branch(t_addr a, bool cond)
 int
 cl_m6800::JMPi(t_mem code)
 {
-  t_addr a= fetch();
-  a+= rX;
-  PC= a;
+  PC= iaddr();
   return resGO;
 }
 
-- 
2.43.0


From 4d83c232909e0ad97bfe580edd5d73add887847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 043/212] fix: 6800 RTI keeps unused bits of CC set

---
 src/core/motorola.src/m6800.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index b827e5b..44b3add 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -546,7 +546,7 @@ void
 cl_m6800::pull_regs(bool inst_part)
 {
   u8_t l, h;
-  rCC= rom->read(++rSP);
+  cCC.W(rom->read(++rSP));
   rB= rom->read(++rSP);
   rA= rom->read(++rSP);
   h= rom->read(++rSP);
-- 
2.43.0


From 31d5ee4409c892cbbd2fd32014c0cdfe75ec50f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 044/212] fix: 6801 ADDD and SUBD set V and C

---
 src/core/motorola.src/m6801.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 778ae09..1fd6b5c 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -128,7 +128,7 @@ cl_m6801::add16(class cl_memory_cell &dest, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a+b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
@@ -146,10 +146,9 @@ cl_m6801::add16(class cl_memory_cell &dest, u16_t op)
 int
 cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
 {
-  u8_t orgc= rF&flagC;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a-b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
-- 
2.43.0


From a1fc1e4601b8403212956fb4a8c4e736727604ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 045/212] fix: 6801 CPX sets V and C according to the
 subtraction

---
 src/core/motorola.src/m6801.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 1fd6b5c..a77bb62 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -166,18 +166,12 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
 int
 cl_m6801::cpx(u16_t op)
 {
-  u32_t r;
-  u16_t x= rX, r2;
+  u16_t x= rX, r;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
-  op= ~op+1;
-  r= x+op;
-  r2= (x&0x7fff) + (op&0x7fff);
+  r= x-op;
   if (r&0x8000) f|= flagN;
-  if (!(r&0xffff)) f|= flagZ;
-  r &= ~0xffff;
-  r2&= ~0x7fff;
-  if ((r && !r2) ||
-      (!r && r2)) f|= flagV;
+  if (!r) f|= flagZ;
+  if (((x^op) & (x^r)) & 0x8000) f|= flagV;
   if (op > x)
     f|= flagC;
   cCC.W(f);
-- 
2.43.0


From e0633785b98eddf4b2cda78b01ea2cadf05c23de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 046/212] fix: 6800 accepts NMI and SWI, RTI finishes interrupt
 service

---
 src/core/motorola.src/inst68.cc | 7 +++++++
 src/core/motorola.src/irq68.cc  | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/core/motorola.src/inst68.cc b/src/core/motorola.src/inst68.cc
index dd1732b..071ba74 100644
--- a/src/core/motorola.src/inst68.cc
+++ b/src/core/motorola.src/inst68.cc
@@ -36,6 +36,13 @@ int
 cl_m6800::RTI(t_mem code)
 {
   pull_regs(true);
+  class it_level *il= (class it_level *)(it_levels->top());
+  if (il &&
+      il->level >= 0)
+    {
+      il= (class it_level *)(it_levels->pop());
+      delete il;
+    }
   return resGO;
 }
 
diff --git a/src/core/motorola.src/irq68.cc b/src/core/motorola.src/irq68.cc
index 77f70ef..df76ddc 100644
--- a/src/core/motorola.src/irq68.cc
+++ b/src/core/motorola.src/irq68.cc
@@ -46,6 +46,8 @@ cl_irq_hw::init()
   //class cl_var *v;
 
   cl_hw::init();
+  cfg_cell(m68_nmi_en)->set(1);
+  cfg_cell(m68_swi_en)->set(1);
 
   return 0;
 }
-- 
2.43.0


From 2744ba04a319eb19d7cb5e7a78844a988a7a6920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 047/212] fix: 68HC11 LDD, STD and BSET clear V

---
 src/core/motorola.src/m68hc11.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index b6b7e1f..a56d5b7 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -479,7 +479,7 @@ CL11::STOP(t_mem code)
 int
 CL11::ldd16(u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   cD.W(op);
   if (!op) f|= flagZ;
   if (op & 0x8000) f|= flagN;
@@ -491,7 +491,7 @@ CL11::ldd16(u16_t op)
 int
 CL11::std16(t_addr addr)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(addr, rA);
   rom->write(u16_t(addr+1), rB);
   vc.wr+= 2;
@@ -598,7 +598,7 @@ CL11::bset(class cl_memory_cell &dest)
 {
   u8_t m= fetch();
   u8_t r= dest.R();
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   r|= m;
   dest.W(r);
   if (!r) f|= flagZ;
-- 
2.43.0


From 712582c31055d0babfad93ba74349cac92e000ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 048/212] fix: 68HC11 opcode of CPY ind,X and CPX ind,Y is 0xac

---
 src/core/motorola.src/m68hc11.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index a56d5b7..70a0f1b 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -428,7 +428,7 @@ CL11::PAGE1A(t_mem code)
     case 0xa3: return cp16(cD, iop16()); break;
     case 0xb3: return cp16(cD, eop16()); break;
 
-    case 0xad: return cp16(cY, iop16()); break;
+    case 0xac: return cp16(cY, iop16()); break;
     case 0xee: return ldsx(cY, iop16()); break;
     case 0xef: return stsx(iaddr(), rY); break;
     }
@@ -444,7 +444,7 @@ CL11::PAGECD(t_mem code)
     {
     case 0xa3: return cp16(cD, iop16()); break;
 
-    case 0xad: return cp16(cX, iop16()); break;
+    case 0xac: return cp16(cX, iop16()); break;
     case 0xee: return ldsx(cX, iop16()); break;
     case 0xef: return stsx(iaddr(), rX); break;
     }
-- 
2.43.0


From 74a846d8974e558f71076144b98c3aae927479c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 049/212] fix: 68HC11 CPX sets C

---
 src/core/motorola.src/m68hc11cl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index d0c1700..d8efeae 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -94,6 +94,7 @@ public:
   virtual int bset(class cl_memory_cell &dest);
   virtual int bclr(class cl_memory_cell &dest);
   virtual int cp16(class cl_cell16 &dest, u16_t op);
+  virtual int cpx(u16_t op) { return cp16(cX, op); }
   
   // BRANCH
   virtual int brset(u8_t op);
-- 
2.43.0


From fc97ff25bfe2d96f92f1428d21bdeb668c3cb1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 050/212] fix: 68HC11 IDIV and FDIV keep divisor till remainder
 is calculated, set X to 0xffff if result overflows

---
 src/core/motorola.src/m68hc11.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 70a0f1b..fdc7fd3 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -646,14 +646,16 @@ CL11::IDIV(t_mem code)
   if (rX == 0)
     {
       q= 0xffff;
-      r= rX;
+      r= rD;
       f|= flagC;
     }
   else
     {
-      cX.W(q= rD/rX);
-      cD.W(r= rD%rX);
+      q= rD/rX;
+      r= rD%rX;
     }
+  cX.W(q);
+  cD.W(r);
   if (!q) f|= flagZ;
   cF.W(f);
   return resGO;
@@ -663,21 +665,24 @@ CL11::IDIV(t_mem code)
 int
 CL11::FDIV(t_mem code)
 {
-  u32_t n= rD << 16;
+  u32_t n= (u32_t)rD << 16;
   u16_t q, r;
   u8_t f= rF & ~(flagZ|flagV|flagC);
   if( rX <= rD) f|= flagV;
   if (rX == 0)
+    f|= flagC;
+  if (rX <= rD)
     {
       q= 0xffff;
-      r= rX;
-      f|= flagC;
+      r= rD;
     }
   else
     {
-      cX.W(q= n/rX);
-      cD.W(r= n%rX);
+      q= n/rX;
+      r= n%rX;
     }
+  cX.W(q);
+  cD.W(r);
   if (!q) f|= flagZ;
   cF.W(f);
   return resGO;
-- 
2.43.0


From 503d334c71af23ce518d3949f4286a4efb1c4798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 051/212] fix: 68HC11 ABY adds to Y

---
 src/core/motorola.src/m68hc11.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index fdc7fd3..f71a6ff 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -720,7 +720,7 @@ CL11::ASLD(t_mem code)
 int
 CL11::ABxy(t_mem code)
 {
-  cI->W(rX+rB);
+  cI->W(cI->get()+rB);
   return resGO;
 }
 
-- 
2.43.0


From 5d1091973c4a88811873e0b58ee291ab73399a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 052/212] fix: 68HC11 has its own interrupt vectors

---
 src/core/motorola.src/m68hc11.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index f71a6ff..d0b6dc7 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -187,6 +187,9 @@ cl_m68hc11::cl_m68hc11(class cl_sim *asim):
   cl_m68hcbase(asim)
 {
   cCC.decode(&CC);
+  IRQ_AT	= 0xfff2;
+  NMI_AT	= 0xfff4;
+  SWI_AT	= 0xfff6;
 }
 
 
-- 
2.43.0


From 39302a9bdaa96d6571f6b9084563ea6deda3dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 053/212] fix: 68HC11 stacks and restores IY too at interrupts

---
 src/core/motorola.src/m68hc11.cc  | 38 +++++++++++++++++++++++++++++++
 src/core/motorola.src/m68hc11cl.h |  3 +++
 2 files changed, 41 insertions(+)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index d0b6dc7..27284e1 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -766,6 +766,44 @@ CL11::DEY(t_mem code)
 }
 
 
+void
+CL11::push_regs(bool inst_part)
+{
+  rom->write(rSP--, PC&0xff);
+  rom->write(rSP--, PC>>8);
+  rom->write(rSP--, rIY&0xff);
+  rom->write(rSP--, rIY>>8);
+  rom->write(rSP--, rIX&0xff);
+  rom->write(rSP--, rIX>>8);
+  rom->write(rSP--, rA);
+  rom->write(rSP--, rB);
+  rom->write(rSP--, rCC);
+  if (!inst_part)
+    tick(9);
+}
+
+
+void
+CL11::pull_regs(bool inst_part)
+{
+  u8_t l, h;
+  cCC.W(rom->read(++rSP));
+  rB= rom->read(++rSP);
+  rA= rom->read(++rSP);
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIX= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIY= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  PC= h*256+l;
+  if (!inst_part)
+    tick(9);
+}
+
+
 /*
  * BRANCH instructions
  */
diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index d8efeae..701f0f6 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -84,6 +84,9 @@ public:
   //virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual int longest_inst(void) { return 6; }
 
+  virtual void push_regs(bool inst_part);
+  virtual void pull_regs(bool inst_part);
+
   // MOVE
   virtual int ldd16(u16_t op);
   virtual int std16(t_addr addr);
-- 
2.43.0


From 132c70af88c7fc90ea1321052a9a5af07ac3b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 054/212] fix: 68HC11 clock cycles of MUL, IDIV, FDIV, CPY, LDY
 and STY

---
 src/core/motorola.src/m68hc11.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 27284e1..58b5adb 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -45,10 +45,10 @@ instruction_wrapper_fn itab18[256];
 
 i8_t p0ticks11[256]= {
   /*      0  1  2  3  4  5  6  7  8  9  a  b  c  d  e  f  */
-  /* 0 */ 0, 2,40,40, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
+  /* 0 */ 0, 2,41,41, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
   /* 1 */ 2, 2, 6, 6, 6, 6, 2, 2, 0, 2, 0, 2, 7, 7, 7, 7,
   /* 2 */ 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4, 3,14,14,
+  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4,10,14,14,
   /* 4 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 5 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 6 */ 6, 0, 0, 6, 6, 0, 6, 6, 6, 6, 6, 0, 6, 6, 3, 6,
@@ -76,11 +76,11 @@ i8_t p18ticks11[256]= {
   /* 8 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 4,
   /* 9 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0,
   /* a */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 7, 7, 6, 6,
-  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0,
+  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 5,
-  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 5, 6,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 6
+  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6
 };
 
 i8_t pcdticks11[256]= {
@@ -119,8 +119,8 @@ i8_t p1aticks11[256]= {
   /* b */ 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0
+  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
 };
 
 
-- 
2.43.0


From 2595321d2710d72757db27d1145281698e1ff834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 055/212] fix: 6809 additions and subtractions keep other
 flags, H counts carry in

---
 src/sims/m6809.src/m6809.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index b2796ed..fe56df9 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1003,8 +1003,8 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
 
   if (c) { ++res, ++o; }
   
-  reg.CC= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
-  if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
+  reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
+  if ((d & 0xf) + (op & 0xf) + (c?1:0) > 0xf)  reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
   if (invert_c)
@@ -1033,7 +1033,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     res++;
   r= res;
   
-  reg.CC= (u8_t)(~(flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagV|flagS|flagZ|flagC));
   //if ((res < (int)(0x8000)) || (res > (int)(0x7fff)))
   if (is_sub)
     {
-- 
2.43.0


From db04496501786d7fd8874ff26e5e4739916fd99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 056/212] fix: 6809 ASL sets V, CLR sets Z

---
 src/sims/m6809.src/m6809.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index fe56df9..16ac207 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1918,6 +1918,7 @@ cl_m6809::inst_asl(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
   
   op8= (acc)?(*acc):(vc.rd++, tick(1), rom->read(ea));
   newc= op8 & 0x80;
+  SET_O( (op8&0x80) ^ ((op8<<1)&0x80) );
   
   op8<<= 1;
 
@@ -2027,7 +2028,7 @@ cl_m6809::inst_clr(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
     rom->write(ea, 0), vc.wr++, tick(1);
   
   SET_O(0);
-  SET_Z(1);
+  SET_Z(0);
   SET_S(0);
   SET_C(0);
 
-- 
2.43.0


From 8e3101c8a19c9085b1f4af874b8a8a00a44363a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 057/212] fix: 6809 addresses wrap around at 64k

---
 src/sims/m6809.src/m6809.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 16ac207..d3d43c6 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -925,14 +925,14 @@ cl_m6809::index2ea(u8_t idx, t_addr *res_ea)
       if (ind && (idx & 0x10))
 	{
 	  u16_t a;
-	  a= rom->read(ea)*256 + rom->read(ea+1);
+	  a= rom->read(ea & 0xffff)*256 + rom->read((ea+1) & 0xffff);
 	  ea= a;
 	  tick(2);
 	}
     }
 
   if (res_ea)
-    *res_ea= ea;
+    *res_ea= ea & 0xffff;
   return resGO;
 }
 
@@ -1133,7 +1133,7 @@ int
 cl_m6809::inst_st16(t_mem code, u16_t src, t_addr ea)
 {
   rom->write(ea  , (src)>>8);
-  rom->write(ea+1, (src)&0xff);
+  rom->write((ea+1) & 0xffff, (src)&0xff);
   tick(2);
   vc.wr+= 2;
   
@@ -1220,7 +1220,7 @@ cl_m6809::inst_alu(t_mem code)
 	  }
 	else
 	  {
-	    op16= op8*256 + rom->read(ea+1);
+	    op16= op8*256 + rom->read((ea+1) & 0xffff);
 	    tick(1);
 	    vc.rd++;
 	  }
@@ -1261,7 +1261,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -1303,7 +1303,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -1348,7 +1348,7 @@ cl_m6809::inst_10(t_mem code)
       {
 	u16_t u= fetch()*256 + fetch();
 	i16_t i= u;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	tick(2);
 	break;
       }
@@ -1361,7 +1361,7 @@ cl_m6809::inst_10(t_mem code)
 	rom->write(--reg.S, (PC>>8)&0xff);
 	tick(2);
 	vc.wr+= 2;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	break;
       }
     case 0x08: // --
@@ -1541,7 +1541,7 @@ cl_m6809::inst_branch(t_mem code, bool l)
     }
   if (t)
     {
-      PC= PC + i;
+      PC= (PC + i) & 0xffff;
       tick(1);
     }
       
@@ -2244,7 +2244,7 @@ cl_m6809::inst_page1(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
@@ -2342,7 +2342,7 @@ cl_m6809::inst_page2(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
-- 
2.43.0


From b5de038f98548a825c6c879c24a94603f157e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 058/212] fix: 6809 EXG can exchange PC

---
 src/sims/m6809.src/m6809.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index d3d43c6..0b9917c 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1421,9 +1421,17 @@ cl_m6809::inst_10(t_mem code)
 	    u16_t *R1= reg16_ptr[r1&7];
 	    u16_t *R2= reg16_ptr[r2&7];
 	    u16_t t;
+	    u16_t t2;
 	    t= (R1)?*R1:PC;
-	    *R1= (R2)?*R2:PC;
-	    *R2= t;
+	    t2= (R2)?*R2:PC;
+	    if (R1)
+	      *R1= t2;
+	    else
+	      PC= t2;
+	    if (R2)
+	      *R2= t;
+	    else
+	      PC= t;
 	  }
 	else
 	  {
-- 
2.43.0


From 9544ecf0e24776fde6e4b0e013e56f99b251b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 059/212] fix: 6809 STY stores Y, STS stores S

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 0b9917c..7ab1feb 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2272,7 +2272,7 @@ cl_m6809::inst_page1(t_mem code)
 	  inst_ld16(code, &(reg.S), op16);
       break;
     case 0xf: // STY, STS
-      if (code & 0x40)
+      if ((code & 0x40) == 0)
 	inst_st16(code, reg.Y, ea);
       else
 	inst_st16(code, reg.S, ea);
-- 
2.43.0


From eee7f4c00e1fb8ea462f7b5c0f94a8b7d41235dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 060/212] fix: 6809 SWI2 and SWI3 are valid instructions

---
 src/sims/m6809.src/m6809.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 7ab1feb..ab58b1b 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2182,6 +2182,7 @@ cl_m6809::inst_page1(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code & 0x80) == 0)
     return resINV_INST;
@@ -2301,6 +2302,7 @@ cl_m6809::inst_page2(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code!=0x83)&&(code!=0x8c)&&
       (code!=0x93)&&(code!=0x9c)&&
-- 
2.43.0


From bfbb51e6c8b40597ee5fe6acfa79a1f6492f1ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 061/212] fix: 6809 stacks CC at fast interrupt request

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index ab58b1b..8b09da6 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -955,9 +955,9 @@ cl_m6809::push_regs(bool do_cc)
       rom->write(--reg.S, B);
       rom->write(--reg.S, A);
       tick(9);
-      if (do_cc)
-	rom->write(--reg.S, reg.CC), tick(1);
     }
+  if (do_cc)
+    rom->write(--reg.S, reg.CC), tick(1);
 }
 
 void
-- 
2.43.0


From 7c6b10889b2191a882dd581fae357550e306a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 062/212] fix: 6809 RTI finishes interrupt service

---
 src/sims/m6809.src/m6809.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 8b09da6..15f1f1a 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1749,6 +1749,15 @@ cl_m6809::inst_30(t_mem code)
     case 0x0b: // RTI
       pull_regs(true);
       tick(1);
+      {
+	class it_level *il= (class it_level *)(it_levels->top());
+	if (il &&
+	    il->level >= 0)
+	  {
+	    il= (class it_level *)(it_levels->pop());
+	    delete il;
+	  }
+      }
       break;
     case 0x0c: // CWAI
       op8= fetch();
-- 
2.43.0


From 3ee4d78e0878f20d3d232db14dd9c7cb417afa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 063/212] fix: stm8: RET keeps the section (PCE) of the program
 counter, as CALL does

---
 src/sims/stm8.src/stm8.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index 1fdb9d5..c3bdaab 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1215,7 +1215,8 @@ cl_stm8::exec_inst(void)
                      return(resINV_INST);
                }
             case 0x80: // ret
-               pop2( PC);
+               pop2( tempi);
+               PC= (PC & 0xff0000) | tempi; // return within the section, as CALL
 	       tick(3);
                return(resGO);
             case 0x10: 
-- 
2.43.0


From 52b23a8b1bf4d520437252a5f82952cd8ec5b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 064/212] fix: stm8: JRM/JRNM test that interrupts are masked
 (I1 and I0 both set)

---
 src/sims/stm8.src/inst.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/stm8.src/inst.cc b/src/sims/stm8.src/inst.cc
index 6bdf9f0..f97199d 100644
--- a/src/sims/stm8.src/inst.cc
+++ b/src/sims/stm8.src/inst.cc
@@ -818,14 +818,14 @@ cl_stm8::inst_jr(t_mem code, unsigned char prefix)
          taken = !(regs.CC & BIT_H);
        break;
       case 6: // JRNM (2C) / JRM (2D)
-        taken = !(regs.CC & (BIT_I1|BIT_I0));
-        break;
-      case 7: // JRIL (2E) / JRIH (2F), no means to test this ???
-        taken = 0;
-        break;
-      default:
-        return(resHALT);
-    }
+        taken = (regs.CC & (BIT_I1|BIT_I0)) != (BIT_I1|BIT_I0);
+        break;
+      case 7: // JRIL (2E) / JRIH (2F), no means to test this ???
+        taken = 0;
+        break;
+      default:
+        return(resHALT);
+    }
   }
   else
     return(resHALT);
-- 
2.43.0


From e82198485c62fd1f2f867b4f635782995386cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 065/212] fix: stm8: relative branches keep the program counter
 in 24 bits

---
 src/sims/stm8.src/inst.cc | 6 +++---
 src/sims/stm8.src/stm8.cc | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/stm8.src/inst.cc b/src/sims/stm8.src/inst.cc
index f97199d..fe8f380 100644
--- a/src/sims/stm8.src/inst.cc
+++ b/src/sims/stm8.src/inst.cc
@@ -422,13 +422,13 @@ cl_stm8::inst_btjfbtjt(t_mem code, unsigned char prefix)
   if (code & 0x01) { // btjf
 	pos = (code - 0x01) >> 1;
 	if(!( dbyte & (1<<pos))) {
-		PC += reljump;
+		PC = (PC + reljump) & PCmask;
 		tick(1);
 	}
   } else { // btjt
  	pos = (code - 0x00) >> 1;
 	if ( dbyte & (1<<pos)) {
-		PC += reljump;
+		PC = (PC + reljump) & PCmask;
 		tick(1);
 	}
   }
@@ -837,7 +837,7 @@ cl_stm8::inst_jr(t_mem code, unsigned char prefix)
   ofs = fetch();
   if (taken)
     {
-      PC += ofs;
+      PC = (PC + ofs) & PCmask;
       tick(1);
     }
   return(resGO);
diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index c3bdaab..e85a519 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1767,7 +1767,7 @@ cl_stm8::exec_inst(void)
              {
                signed char c = (signed char) fetch1();
                push2(PC);
-               PC += c;
+               PC = (PC + c) & PCmask;
 	       tick(3);
                return(resGO);
              }
-- 
2.43.0


From d093e9144ff451d4593d4083321b3ab6147cf9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 066/212] fix: avr: CPI, SUBI and SBCI take the upper half of
 the constant from its place

---
 src/sims/avr.src/arith_inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 22d4524..259409c 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -43,7 +43,7 @@ cl_avr::cpi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -93,7 +93,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -144,7 +144,7 @@ cl_avr::subi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
-- 
2.43.0


From 6002320fcde60d46aa779d0dfa0f6c4247347b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 067/212] fix: avr: SBC, SBCI, CPC and ROR calculate their
 result

---
 src/sims/avr.src/arith_inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 259409c..dcc3a18 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -101,7 +101,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)K-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)K-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -237,7 +237,7 @@ cl_avr::cpc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   
   sreg= sreg & ~(BIT_H|BIT_S|BIT_V|BIT_N|BIT_C);
@@ -287,7 +287,7 @@ cl_avr::sbc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -751,7 +751,7 @@ cl_avr::ror_Rd(t_mem code)
       sreg|= BIT_C;
       c= 1;
     }
-  result= (D >> 1) | oldc?0x80:0;
+  result= (D >> 1) | (oldc?0x80:0);
   res= result & 0xff;
   ram->write(d, res);
   if (res & 0x80)
-- 
2.43.0


From cf563f269b2294bd551bc290f65eec6af17298b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 068/212] fix: avr: half carry of ADC counts the incoming carry

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index dcc3a18..3434401 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -509,7 +509,7 @@ cl_avr::adc_Rd_Rr(t_mem code)
     sreg|= BIT_C;
   else
     sreg&= ~BIT_C;
-  if ((R&0xf) + (D&0xf) > 15)
+  if ((R&0xf) + (D&0xf) + (result-D-R) > 15)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
-- 
2.43.0


From b1a10ee80cf36a0d1017bd68dbf42362cfffedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 069/212] fix: avr: half carry of NEG comes from the operand
 and the result

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 3434401..f430437 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -575,7 +575,7 @@ cl_avr::neg_Rd(t_mem code)
   ram->write(d, res);
   
   t_mem sreg= ram->get(SREG);
-  if (res & (~d) & 0x08)
+  if ((res | D) & 0x08)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
-- 
2.43.0


From f3c83f35568a233276a23277671803cfd3d0a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 070/212] fix: avr: MUL sets the zero flag

---
 src/sims/avr.src/arith_inst.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index f430437..40ab6b5 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -844,9 +844,11 @@ cl_avr::mul_Rd_Rr(t_mem code)
   resh= (result>>8) & 0xff;
   ram->write(0, resl);
   ram->write(1, resh);
-  t_mem sreg= ram->read(SREG) & ~BIT_C;
+  t_mem sreg= ram->read(SREG) & ~(BIT_C|BIT_Z);
   if (resh & 0x80)
     sreg|= BIT_C;
+  if (!(result & 0xffff))
+    sreg|= BIT_Z;
   ram->write(SREG, sreg);
   tick(1);
   return(resGO);
-- 
2.43.0


From 208ce8e23cceddcadbb9da89719429a6aa7ece1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 071/212] fix: avr: ADIW overflows when the sign changes from
 plus to minus

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 40ab6b5..80a0f40 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -882,7 +882,7 @@ cl_avr::adiw_Rdl_K(t_mem code)
     sreg|= BIT_Z;
   else
     sreg&= ~BIT_Z;
-  if (D&res&0x8000)
+  if ((~D)&res&0x8000)
     sreg|= (BIT_V|BIT_S);
   else
     sreg&= ~(BIT_V|BIT_S);
-- 
2.43.0


From af65441dfa33c05c72ed655f05bdb1c54a594981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 072/212] fix: avr: constant of SBIW is unsigned

---
 src/sims/avr.src/arith_inst.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 80a0f40..8556ac3 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -920,8 +920,6 @@ cl_avr::sbiw_Rdl_K(t_mem code)
   dl= 24+(2*((code&0x30)>>4));
   K= ((code&0xc0)>>2)|(code&0xf);
   D= ram->read(dl+1)*256 + ram->read(dl);
-  if (K & 0x20)
-    K|= ~0x3f;
   if (D & 0x8000)
     D|= ~0xffff;
   result= (signed)D-(signed)K;
-- 
2.43.0


From a8efeb7bd8e9aa3999e7c2fc8b4243d1898d5f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 073/212] fix: avr: ORI and ANDI read the register they write

---
 src/sims/avr.src/logic_inst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/logic_inst.cc b/src/sims/avr.src/logic_inst.cc
index 6d7ae2e..b731165 100644
--- a/src/sims/avr.src/logic_inst.cc
+++ b/src/sims/avr.src/logic_inst.cc
@@ -44,7 +44,7 @@ cl_avr::ori_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K | ram->read(d);
+  data= K | ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
@@ -66,7 +66,7 @@ cl_avr::andi_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K & ram->read(d);
+  data= K & ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
-- 
2.43.0


From 36f3951a018af2c83f03ed53dc30528aa8d30653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 074/212] fix: avr: LPM addresses bytes of the program memory

---
 src/sims/avr.src/move_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/move_inst.cc b/src/sims/avr.src/move_inst.cc
index cfd46fa..cd7aa41 100644
--- a/src/sims/avr.src/move_inst.cc
+++ b/src/sims/avr.src/move_inst.cc
@@ -43,7 +43,7 @@ cl_avr::lpm(t_mem code)
   t_mem data;
 
   addr= ram->get(ZH)*256 + ram->get(ZL);
-  data= rom->read(addr);
+  data= rom->read(addr>>1);
   vc.rd++;
   if (addr & 1)
     ram->/*write*/set(0, (data>>8)&0xff);
-- 
2.43.0


From 092f33395442b8e037630aeba56fa77cf30c7ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 075/212] fix: avr: skip instructions skip the whole of the
 next instruction

---
 src/sims/avr.src/jump_cl.h    |  1 +
 src/sims/avr.src/jump_inst.cc | 89 ++++++++++-------------------------
 2 files changed, 25 insertions(+), 65 deletions(-)

diff --git a/src/sims/avr.src/jump_cl.h b/src/sims/avr.src/jump_cl.h
index 92dedc7..7dcd453 100644
--- a/src/sims/avr.src/jump_cl.h
+++ b/src/sims/avr.src/jump_cl.h
@@ -8,6 +8,7 @@
   virtual int reti(t_mem code);
   virtual int rjmp_k(t_mem code);
   virtual int rcall_k(t_mem code);
+  void skip_inst(void);
   virtual int cpse_Rd_Rr(t_mem code);
   virtual int jmp_k(t_mem code);
   virtual int call_k(t_mem code);
diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index 85268d9..1a2f2cf 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -170,6 +170,25 @@ cl_avr::rcall_k(t_mem code)
 }
 
 
+/*
+ * Skip next instruction, LDS, STS, JMP and CALL are two words long
+ *____________________________________________________________________________
+ */
+
+void
+cl_avr::skip_inst(void)
+{
+  t_mem next= rom->get(PC);
+  int len= 1;
+
+  if (((next & 0xfc0f) == 0x9000) ||
+      ((next & 0xfe0c) == 0x940c))
+    len= 2;
+  PC= rom->validate_address(PC + len);
+  tick(len);
+}
+
+
 /*
  * Compare Skip if Equal
  * CPSE Rd,Rr 0<=d<=31, 0<=r<=31
@@ -185,21 +204,7 @@ cl_avr::cpse_Rd_Rr(t_mem code)
   d= (code&0x1f0)>>4;
   r= ((code&0x200)>>5)|(code&0xf);
   if (ram->read(r) == ram->read(d))
-    {
-      t_mem next_code= rom->get(PC);
-      int i= 0;
-      struct dis_entry *dt= dis_tbl();
-      while ((next_code & dt[i].mask) != dt[i].code &&
-	     dt[i].mnemonic)
-	i++;
-      if (dt[i].mnemonic != NULL)
-	{
-	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
-	}
-      else
-	return(resINV_INST);
-    }
+    skip_inst();
   return(resGO);
 }
 
@@ -315,21 +320,7 @@ cl_avr::sbrc_Rr_b(t_mem code)
   int b= code&7;
   t_mem mask= 1<<b;
   if (!(ram->read(r) & mask))
-    {
-      t_mem next_code= rom->get(PC);
-      int i= 0;
-      struct dis_entry *dt= dis_tbl();
-      while ((next_code & dt[i].mask) != dt[i].code &&
-	     dt[i].mnemonic)
-	i++;
-      if (dt[i].mnemonic != NULL)
-	{
-	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
-	}
-      else
-	return(resINV_INST);
-    }
+    skip_inst();
   return(resGO);
 }
 
@@ -348,21 +339,7 @@ cl_avr::sbrs_Rr_b(t_mem code)
   int b= code&7;
   t_mem mask= 1<<b;
   if (ram->read(r) & mask)
-    {
-      t_mem next_code= rom->get(PC);
-      int i= 0;
-      struct dis_entry *dt= dis_tbl();
-      while ((next_code & dt[i].mask) != dt[i].code &&
-	     dt[i].mnemonic)
-	i++;
-      if (dt[i].mnemonic != NULL)
-	{
-	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
-	}
-      else
-	return(resINV_INST);
-    }
+    skip_inst();
   return(resGO);
 }
 
@@ -383,16 +360,7 @@ cl_avr::sbic_P_b(t_mem code)
   mask= 1 << (code&7);
   vc.rd++;
   if (0 == (mask & ram->read(addr)))
-    {
-      code= fetch();
-      int size= inst_length(code);
-      while (size > 1)
-	{
-	  fetch();
-	  size--;
-	}
-      tick(1);
-    }
+    skip_inst();
   return(resGO);
 }
 
@@ -413,16 +381,7 @@ cl_avr::sbis_P_b(t_mem code)
   mask= 1 << (code&7);
   vc.rd++;
   if (mask & ram->read(addr))
-    {
-      code= fetch();
-      int size= inst_length(code);
-      while (size > 1)
-	{
-	  fetch();
-	  size--;
-	}
-      tick(1);
-    }
+    skip_inst();
   return(resGO);
 }
 
-- 
2.43.0


From 731b56d6d21fcf81577749d0868cdcece023b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 076/212] fix: avr: low byte of the return address is pushed
 first

---
 src/sims/avr.src/avr.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 7e3e3ca..9e2f8a9 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -692,9 +692,9 @@ cl_avr::push_addr(t_addr addr)
   sp= 0xffff & (256*sph + spl);
   al= addr & 0xff;
   ah= (addr>>8) & 0xff;
-  ram->write(sp, ah);
-  sp= 0xffff & (sp-1);
   ram->write(sp, al);
+  sp= 0xffff & (sp-1);
+  ram->write(sp, ah);
   vc.wr+= 2;
   sp= 0xffff & (sp-1);
   spl= sp & 0xff;
@@ -734,9 +734,9 @@ cl_avr::pop_addr(t_addr *addr)
   sph= ram->read(SPH);
   sp= 256*sph + spl;
   sp= 0xffff & (sp+1);
-  al= ram->read(sp);
-  sp= 0xffff & (sp+1);
   ah= ram->read(sp);
+  sp= 0xffff & (sp+1);
+  al= ram->read(sp);
   vc.rd+= 2;
   *addr= ah*256 + al;
   spl= sp & 0xff;
-- 
2.43.0


From c42200d710ccb4ab02ecd743d239d4ba400ea815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 077/212] fix: s51: timers 0 and 1 count falling edges of the
 counter input

---
 src/sims/s51.src/timer0.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 1ea1212..873df61 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -395,8 +395,8 @@ cl_timer0::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       t_mem p3n= ep->new_pins & ep->new_value;
       t_mem p3o= ep->pins & ep->prev_value;
-      if ((p3n & mask_T) &&
-	  !(p3o & mask_T))
+      if (!(p3n & mask_T) &&
+	  (p3o & mask_T))
 	T_edge++;
       INT= p3n & mask_INT;
       //printf("timer%d p%dchanged (%02x,%02x->%02x,%02x) INT=%d(%02x) edge=%d(%02x)\n",id,where->id,ep->prev_value,ep->pins,ep->new_value,ep->new_pins,INT,mask_INT,T_edge,mask_T);
-- 
2.43.0


From 906fa1d8fab2b30e7c7657c4381b6a341985e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 078/212] fix: s51: timer 2 as a counter counts the edges of T2
 only

---
 src/sims/s51.src/timer2.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index ef4a20e..3ed36cd 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -224,10 +224,13 @@ cl_timer2::do_t2_capture(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
-	cell_tcon->set(cell_tcon->get() | bmTF2);
+      if (!cell_tl->set(cell_tl->get() + 1))
+	{
+	  if (!cell_th->set(cell_th->get() + 1))
+	    cell_tcon->set(cell_tcon->get() | bmTF2);
+	}
     }
 }
 
@@ -253,13 +256,16 @@ cl_timer2::do_t2_reload(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
+      if (!cell_tl->set(cell_tl->get() + 1))
 	{
-	  cell_tcon->set(cell_tcon->get() | mask_TF);
-	  cell_th->set(cell_rcap2h->get());
-	  cell_tl->set(cell_rcap2l->get());
+	  if (!cell_th->set(cell_th->get() + 1))
+	    {
+	      cell_tcon->set(cell_tcon->get() | mask_TF);
+	      cell_th->set(cell_rcap2h->get());
+	      cell_tl->set(cell_rcap2l->get());
+	    }
 	}
     }
 }
-- 
2.43.0


From af62395e59fccd9d0b3cb39227dfbb591bf673d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 079/212] fix: s51: only writes of the port are announced as
 port changes

---
 src/sims/s51.src/port.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/port.cc b/src/sims/s51.src/port.cc
index 03ef499..a7b856e 100644
--- a/src/sims/s51.src/port.cc
+++ b/src/sims/s51.src/port.cc
@@ -185,7 +185,8 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
   ep.prev_value= cell_p->get();
   ep.new_value= nv;
   ep.pins= ep.new_pins= port_pins;
-  if (ep.prev_value != ep.new_value)
+  if (((cell == cell_p) || bas->is_owned(cell, &ba)) &&
+      (ep.prev_value != ep.new_value))
     inform_partners(EV_PORT_CHANGED, &ep);
   prev= cell_p->get();
 }
-- 
2.43.0


From 2fabb52e78b1810e64ef75c7dcdb1a30ecd7a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 080/212] fix: s51: a stopped timer forgets the edges of its
 inputs

---
 src/sims/s51.src/timer0.cc | 1 +
 src/sims/s51.src/timer2.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 873df61..3823c51 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -213,6 +213,7 @@ cl_timer0::tick(int cycles)
     case 2: do_mode2(cycles); break;
     case 3: do_mode3(cycles); break;
     }
+  T_edge= 0; // edges are not counted later if counter is stopped
   return(resGO);
 }
 
diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 3ed36cd..26d625f 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -164,6 +164,7 @@ cl_timer2::tick(int cycles)
       break;
     default: break;
     }
+  T_edge= t2ex_edge= 0;
   
   return(resGO);
 }
-- 
2.43.0


From 571cda3761d831f36d41ea9b3403952c5e956227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 081/212] fix: s51: timer 1 runs without TR1 and TF1 while
 timer 0 is in mode 3

---
 src/sims/s51.src/timer0.cc  | 18 ++++++++++++------
 src/sims/s51.src/timer0cl.h |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 3823c51..cec971d 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -37,6 +37,7 @@ cl_timer0::cl_timer0(class cl_uc *auc, int aid, const char *aid_string):
   cl_hw(auc, HW_TIMER, aid, aid_string)
 {
   cell_tmod= cell_tcon= 0;
+  free_run= false;
   if (aid == 0)
     {
       mask_M0  = bmM00;
@@ -177,6 +178,8 @@ cl_timer0::write(class cl_memory_cell *cell, t_mem *val)
 	mode= 0;
       GATE= *val & mask_GATE;
       C_T = *val & mask_C_T;
+      // timer 0 in mode 3 uses TR1 and TF1, so timer 1 is always on
+      free_run= (id == 1) && ((*val & (bmM10|bmM00)) == (bmM10|bmM00));
       T_edge= 0;
     }
   else if ((cell == cell_tcon) ||
@@ -220,7 +223,7 @@ cl_timer0::tick(int cycles)
 int
 cl_timer0::do_mode0(int cycles)
 {
-  if (!TR)
+  if (!TR && !free_run)
     return(0);
 
   //t_mem p3= uc->mem(MEM_SFR)->get(P3);
@@ -248,7 +251,8 @@ cl_timer0::do_mode0(int cycles)
 	  cell_tl->set(0);
 	  if (!cell_th->set(cell_th->get() + 1))
 	    {
-	      cell_tcon->set(cell_tcon->get() | mask_TF);
+	      if (!free_run)
+                cell_tcon->set(cell_tcon->get() | mask_TF);
 	      overflow();
 	    }
 	}
@@ -260,7 +264,7 @@ cl_timer0::do_mode0(int cycles)
 int
 cl_timer0::do_mode1(int cycles)
 {
-  if (!TR)
+  if (!TR && !free_run)
     return(0);
 
   //t_mem p3= uc->mem(MEM_SFR)->get(P3);
@@ -287,7 +291,8 @@ cl_timer0::do_mode1(int cycles)
 	{
 	  if (!cell_th->set(cell_th->get() + 1))
 	    {
-	      cell_tcon->set(cell_tcon->get() | mask_TF);
+	      if (!free_run)
+                cell_tcon->set(cell_tcon->get() | mask_TF);
 	      overflow();
 	    }
 	}
@@ -299,7 +304,7 @@ cl_timer0::do_mode1(int cycles)
 int
 cl_timer0::do_mode2(int cycles)
 {
-  if (!TR)
+  if (!TR && !free_run)
     return(0);
 
   //t_mem p3= uc->mem(MEM_SFR)->get(P3);
@@ -326,7 +331,8 @@ cl_timer0::do_mode2(int cycles)
       if (!cell_tl->set(cell_tl->get() + 1))
 	{
 	  cell_tl->set(cell_th->get());
-	  cell_tcon->set(cell_tcon->get() | mask_TF);
+	  if (!free_run)
+            cell_tcon->set(cell_tcon->get() | mask_TF);
 	  //printf("timer%d overflow %d (%d) %d\n",id,uc->ticks->ticks,i,startt+(i*12));
 	  overflow();
 	}
diff --git a/src/sims/s51.src/timer0cl.h b/src/sims/s51.src/timer0cl.h
index d7e26f5..368c739 100644
--- a/src/sims/s51.src/timer0cl.h
+++ b/src/sims/s51.src/timer0cl.h
@@ -47,6 +47,7 @@ protected:
     mask_T, mask_TF;
   t_addr addr_tl, addr_th, addr_tcon;
   int mode, GATE, C_T, TR, INT, T_edge;
+  bool free_run;
 public:
   cl_timer0(class cl_uc *auc, int aid, const char *aid_string);
   virtual int init(void);
-- 
2.43.0


From 785692f137e189c27732cd9d3cc4db276293ff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 082/212] fix: s51: mode of timer 2 follows both T2CON and
 T2MOD

---
 src/sims/s51.src/timer2.cc  | 51 ++++++++++++++++++++-----------------
 src/sims/s51.src/timer2cl.h |  1 +
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 26d625f..f2624b6 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -36,6 +36,7 @@ cl_timer2::cl_timer2(class cl_uc *auc, int aid, const char *aid_string,
 {
   features= afeatures;
   exf2it= 0;
+  bit_dcen= bit_t2oe= false;
   mask_RCLK= bmRCLK;
   mask_TCLK= bmTCLK;
   mask_CP_RL2= bmCP_RL2;
@@ -97,8 +98,6 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       else
 	n&= ~m;
     }
-  if (exf2it)
-    exf2it->activate();
   if ((cell == cell_tcon) ||
       b)
     {
@@ -108,33 +107,14 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       TCLK= n & mask_TCLK;
       CP_RL2= n & mask_CP_RL2;
       EXEN2 = n & bmEXEN2;
-      if (!(RCLK || TCLK) &&
-	  !CP_RL2)
-	mode= T2MODE_RELOAD;
-      else if (!(RCLK || TCLK) &&
-	       CP_RL2)
-	mode= T2MODE_CAPTURE;
-      else if (RCLK || TCLK)
-	mode= T2MODE_BAUDRATE;
-      else
-	mode= T2MODE_OFF;
+      select_mode();
       inform_partners(EV_T2_MODE_CHANGED, &n);
     }
   else if (cell == cell_t2mod)
     {
       bit_dcen= (*val & bmDCEN) != 0;
       bit_t2oe= (*val & bmT2OE) != 0;
-      if ((features & t2_down) &&
-	  bit_dcen &&
-	  mode == T2MODE_RELOAD)
-	{
-	  mode= T2MODE_DOWN;
-	  if (exf2it)
-	    exf2it->deactivate();
-	}
-      if ((features & t2_clock_out) &&
-          bit_t2oe)
-        mode= T2MODE_CLKOUT;
+      select_mode();
     }
   if ((mode != oldmode) ||
       (TR && !oldtr) ||
@@ -142,6 +122,31 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
     T_edge= t2ex_edge= 0;
 }
 
+/* Mode depends on bits of T2CON and T2MOD, in whatever order they are written */
+
+void
+cl_timer2::select_mode(void)
+{
+  if (RCLK || TCLK)
+    mode= T2MODE_BAUDRATE;
+  else if (CP_RL2)
+    mode= T2MODE_CAPTURE;
+  else if ((features & t2_down) && bit_dcen)
+    mode= T2MODE_DOWN;
+  else
+    mode= T2MODE_RELOAD;
+  if ((features & t2_clock_out) &&
+      bit_t2oe)
+    mode= T2MODE_CLKOUT;
+  if (exf2it)
+    {
+      if (mode == T2MODE_DOWN)
+	exf2it->deactivate();
+      else
+	exf2it->activate();
+    }
+}
+
 int
 cl_timer2::tick(int cycles)
 { 
diff --git a/src/sims/s51.src/timer2cl.h b/src/sims/s51.src/timer2cl.h
index 2cc9cc1..f57a30a 100644
--- a/src/sims/s51.src/timer2cl.h
+++ b/src/sims/s51.src/timer2cl.h
@@ -75,6 +75,7 @@ public:
 
   //virtual void mem_cell_changed(class cl_mem *mem, t_addr addr);
 
+  virtual void select_mode(void);
   virtual int  tick(int cycles);
   virtual int  do_t2_baud(int cycles);
   virtual void do_t2_capture(int cycles);
-- 
2.43.0


From 6d1d31ef2737bd41359ca753ccdbf508d93e73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 083/212] fix: s51: timer 2 counting down toggles EXF2 and
 underflows from any RCAP2 value

---
 src/sims/s51.src/timer2.cc | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index f2624b6..65d41d2 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -298,7 +298,7 @@ cl_timer2::do_t2_down(int cycles)
 		cell_tcon->set(cell_tcon->get() | mask_TF);
 		cell_th->set(cell_rcap2h->get());
 		cell_tl->set(cell_rcap2l->get());
-		toggle= true;
+		toggle= !toggle;
 	      }
 	  }
     }
@@ -307,28 +307,21 @@ cl_timer2::do_t2_down(int cycles)
        // DOWN
       while (cycles--)
 	{
-	  t_mem l, h;
-	  if ((l= cell_tl->set(cell_tl->get() - 1)) == 0xff)
-	    h= cell_th->set(cell_th->get() - 1);
-	  else
-	    h= cell_th->get();
-	  if ((u16_t)(h*256+l) <
-	      (u16_t)(cell_rcap2h->get()*256+cell_rcap2l->get()))
+	  if ((cell_tl->get() == cell_rcap2l->get()) &&
+	      (cell_th->get() == cell_rcap2h->get()))
 	    {
+	      // underflow
 	      cell_tcon->set(cell_tcon->get() | mask_TF);
 	      cell_th->set(0xff);
 	      cell_tl->set(0xff);
-	      toggle= true;
+	      toggle= !toggle;
 	    }
+	  else if (cell_tl->set(cell_tl->get() - 1) == 0xff)
+	    cell_th->set(cell_th->get() - 1);
 	}
     }
-  if (toggle &&
-      sfr)
-    {
-      class cl_memory_cell *p1= sfr->get_cell(P1);
-      if (p1)
-	p1->set(p1->get() ^ bmEXF2);
-    }
+  if (toggle)
+    cell_tcon->set(cell_tcon->get() ^ bmEXF2);
 }
 
 void
-- 
2.43.0


From b1796f23aa097dc4a942470c94b315585081ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 084/212] fix: s51: peripherals run in idle mode, its interrupt
 is served at once

---
 src/sims/s51.src/uc51.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 40dbf30..c1cb92e 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1712,7 +1712,10 @@ cl_51core::do_inst(void)
   else
     {
       // tick hw in idle state
+      inst_ticks= 0;
       tick(1);
+      if (state == stIDLE)
+	tick_hw(inst_ticks);
     }
 
   if ((result == resGO) && (PC == PCsave) && stop_selfjump)
@@ -1759,7 +1762,10 @@ cl_51core::do_emu(void)
   else
     {
       // tick hw in idle state
+      inst_ticks= 0;
       tick(1);
+      if (state == stIDLE)
+	tick_hw(inst_ticks);
     }
 
   if (result == resGO)
@@ -1825,13 +1831,6 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  if (state == stIDLE)
-	    {
-	      state= stGO;
-	      sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-	      interrupt->was_reti= true;
-	      return(resGO);
-	    }
 	  is->clear();
 	  sim->app->get_commander()->
 	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-- 
2.43.0


From 5f45e454bee4bd503e914997898c8d596cdad73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 085/212] fix: s51: simultaneous interrupts are served in order
 of their priority level

---
 src/sims/s51.src/uc51.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index c1cb92e..24a2727 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1820,6 +1820,8 @@ cl_51core::do_interrupt(void)
   if (!((ie= sfr->get(IE)) & bmEA))
     return(resGO);
   class it_level *il= (class it_level *)(it_levels->top()), *IL= 0;
+  class cl_it_src *best= NULL;
+  int best_pr= -1;
   for (i= 0; i < it_sources->count; i++)
     {
       class cl_it_src *is= (class cl_it_src *)(it_sources->at(i));
@@ -1831,14 +1833,23 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  is->clear();
-	  sim->app->get_commander()->
-	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-			  ticks->get_rtime(), ticks->get_ticks(), object_name(is), PC);
-	  IL= new it_level(pr, is->addr, PC, is);
-	  return(accept_it(IL));
+	  // polling order decides between requests of the same level only
+	  if (pr > best_pr)
+	    {
+	      best= is;
+	      best_pr= pr;
+	    }
 	}
     }
+  if (best)
+    {
+      best->clear();
+      sim->app->get_commander()->
+	debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
+	      ticks->get_rtime(), ticks->get_ticks(), object_name(best), PC);
+      IL= new it_level(best_pr, best->addr, PC, best);
+      return(accept_it(IL));
+    }
   return(resGO);
 }
 
-- 
2.43.0


From 2acf8cab12e6c65e39c1a51ee8098ca34f442cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 086/212] fix: s51: level activated external interrupt request
 follows the pin

---
 src/sims/s51.src/interrupt.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 0cc82c6..0ff90bf 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -109,10 +109,14 @@ cl_interrupt::mem_cell_changed(class cl_m *mem, t_addr addr)
 int
 cl_interrupt::tick(int cycles)
 {
-  if (!bit_IT0 && !bit_INT0)
-    cell_tcon->set(cell_tcon->get() | bmIE0);
-  if (!bit_IT1 && !bit_INT1)
-    cell_tcon->set(cell_tcon->get() | bmIE1);
+  t_mem tcon= cell_tcon->get();
+  // level activated requests follow the pin
+  if (!bit_IT0)
+    tcon= bit_INT0?(tcon & ~bmIE0):(tcon | bmIE0);
+  if (!bit_IT1)
+    tcon= bit_INT1?(tcon & ~bmIE1):(tcon | bmIE1);
+  if (tcon != cell_tcon->get())
+    cell_tcon->set(tcon);
   return(resGO);
 }
 
-- 
2.43.0


From d1512c4bc8990b58eedea71162f88ca80edb0845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 087/212] fix: s51: write of a bit of IE or any write of IP
 delays the interrupt

---
 src/sims/s51.src/interrupt.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 0ff90bf..e39f6c2 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -54,12 +54,18 @@ cl_interrupt::init(void)
   if (sfr)
     {
       register_cell(sfr, IE);
+      register_cell(sfr, IP);
       cell_tcon= register_cell(sfr, TCON);
       bit_INT0= sfr->read(P3) & bm_INT0;
       bit_INT1= sfr->read(P3) & bm_INT1;
       cl_address_space *bas= uc->address_space("bits");
       cell_it0= register_cell(bas, 0x88);
       cell_it1= register_cell(bas, 0x8a);
+      for (int i= 0; i < 8; i++)
+	{
+	  register_cell(bas, IE+i);
+	  register_cell(bas, IP+i);
+	}
     }
   return(0);
 }
@@ -97,7 +103,7 @@ cl_interrupt::write(class cl_memory_cell *cell, t_mem *val)
       bit_IT1= *val & bmIT1;
     }
   else
-    // IE register
+    // IE or IP register
     was_reti= true;
 }
 
-- 
2.43.0


From 40162dd7d7c970064459fe2f2c86e4f4f7f6dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 088/212] fix: st7: addresses of memory accesses, jumps and
 branches wrap at 64K

---
 src/sims/st7.src/inst.cc  | 24 ++++++++++++------------
 src/sims/st7.src/st7.cc   | 10 +++++-----
 src/sims/st7.src/st7mac.h |  4 ++--
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 986d0ed..c146f47 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -276,13 +276,13 @@ cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
   if (code & 0x01) { // btjf  
 	char pos = (code - 0x01) >> 1;
 	if(!( dbyte & (1<<pos))) {
-		PC += reljump;
+		PC = (PC + reljump) & 0xffff;
 	}
 	
   } else { // btjt
  	char pos = (code - 0x00) >> 1;
 	if ( dbyte & (1<<pos)) {
-		PC += reljump;
+		PC = (PC + reljump) & 0xffff;
 	}
 	
   }
@@ -293,7 +293,7 @@ cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 int
 cl_st7::inst_call(t_mem code, unsigned char prefix)
 {
-  int newPC = fetchea(code, prefix);
+  int newPC = fetchea(code, prefix) & 0xffff;
   push2(PC);
   PC = newPC;
 
@@ -314,7 +314,7 @@ cl_st7::inst_callr(t_mem code, unsigned char prefix)
    }
    
    push2(PC);
-   PC += newPC;
+   PC = (PC + newPC) & 0xffff;
 
    return(resGO);
 }
@@ -523,13 +523,13 @@ cl_st7::inst_jr(t_mem code, unsigned char prefix)
         break;
       case 6: // JRNM / JRM
         taken = !(regs.CC & BIT_I);
-        break;
-      case 7: // JRIL - interrupt low - no means to test this ???
-        taken = 1; 
-        break;
-      default:
-        return(resHALT);
-    } 
+        break;
+      case 7: // JRIL - interrupt low - no means to test this ???
+        taken = 1; 
+        break;
+      default:
+        return(resHALT);
+    } 
   if (code & 1)
     taken = ! taken;
   
@@ -542,7 +542,7 @@ cl_st7::inst_jr(t_mem code, unsigned char prefix)
    }
 
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
 
   return(resGO);
 }
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index e211641..2c3f7db 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -1192,23 +1192,23 @@ t_mem
 cl_st7::get_1(t_addr addr)
 {
   vc.rd++;
-  return ram->read(addr);
+  return ram->read(addr & 0xffff);
 }
 
 t_mem
 cl_st7::get_2(t_addr addr)
 {
   vc.rd+= 2;
-  return (ram->read(addr) << 8) | ram->read(addr+1);
+  return (ram->read(addr & 0xffff) << 8) | ram->read((addr+1) & 0xffff);
 }
 
 t_mem
 cl_st7::get_3(t_addr addr)
 {
   vc.rd+= 3;
-  return (ram->read(addr) << 16) |
-    (ram->read(addr+1) << 8) |
-    (ram->read(addr+2));
+  return (ram->read(addr & 0xffff) << 16) |
+    (ram->read((addr+1) & 0xffff) << 8) |
+    (ram->read((addr+2) & 0xffff));
 }
 
 
diff --git a/src/sims/st7.src/st7mac.h b/src/sims/st7.src/st7mac.h
index ecd89b9..4b66acd 100644
--- a/src/sims/st7.src/st7mac.h
+++ b/src/sims/st7.src/st7mac.h
@@ -16,8 +16,8 @@
 #define BITPOS_I 3  // 8H
 #define BITPOS_H 4  // 10H
 
-#define store2(addr, val) { ram->write((t_addr) (addr), (val >> 8) & 0xff); ram->write((t_addr) (addr+1), val & 0xff); vc.wr+= 2; }
-#define store1(addr, val) { ram->write((t_addr) (addr), val); vc.wr++; }
+#define store2(addr, val) { ram->write((t_addr) (addr) & 0xffff, (val >> 8) & 0xff); ram->write((t_addr) (addr+1) & 0xffff, val & 0xff); vc.wr+= 2; }
+#define store1(addr, val) { ram->write((t_addr) (addr) & 0xffff, val); vc.wr++; }
 #define get1(addr) get_1(addr)
 //ram->get((t_addr) (addr))
 #define get2(addr) get_2(addr)
-- 
2.43.0


From 305268f3ddbf1065e32a101458cab8d12a3c300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 089/212] fix: st7: JP jumps to the effective address

---
 src/sims/st7.src/st7.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 2c3f7db..7d7e490 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -1023,7 +1023,7 @@ cl_st7::exec_inst(void)
          case 0xD0:
          case 0xE0:
          case 0xF0: // JP
-            PC = OPERAND(code, cprefix);
+            PC = fetchea(code, cprefix) & 0xffff;
             return( resGO);
             break;
          case 0x80: // 
-- 
2.43.0


From 353ecf11a7501ba873fb6fd5d0f1286c8e84c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 090/212] fix: st7: short and long addressing of LD and CP with
 register Y

---
 src/sims/st7.src/inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index c146f47..fcbbbfb 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -51,9 +51,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
   switch ((code >> 4) & 0x0f) {
 	
     case 0xb:
-	  if ( 0 == prefix) {              // short direct
+	  if (( 0 == prefix) || (0x90 == prefix)) {              // short direct
 		 resaddr = fetch();
-     } else if ( 0x92 == prefix) {    // short indirect - pointer
+     } else if (( 0x92 == prefix) || (0x91 == prefix)) {    // short indirect - pointer
        resaddr = get1(fetch());
 	  } else {
 	    resaddr = ( resHALT);
@@ -61,9 +61,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
      break;
      
     case 0xc:
-	  if ( 0 == prefix) {              // long direct
+	  if (( 0 == prefix) || (0x90 == prefix)) {              // long direct
 		resaddr = fetch2();
-	  } else if ( 0x92 == prefix) {    // long indirect - pointer is under 0x100
+	  } else if (( 0x92 == prefix) || (0x91 == prefix)) {    // long indirect - pointer is under 0x100
        ftc = fetch();
        resaddr = get2(ftc);
 	  } else {
-- 
2.43.0


From 1712d09a01a163da30a5fe4568cd6ad3676d32ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 091/212] fix: st7: N flag of shifts, NEG, SWAP and TNZ, C flag
 of NEG

---
 src/sims/st7.src/inst.cc | 50 ++++++++--------------------------------
 1 file changed, 9 insertions(+), 41 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index fcbbbfb..7b1584a 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -645,12 +645,8 @@ cl_st7::inst_neg(t_mem code, unsigned char prefix)
    operand++;
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   FLAG_ASSIGN (BIT_C, operand);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_C, operand & 0xff);
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -709,11 +705,7 @@ cl_st7::inst_rlc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x100));
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -753,11 +745,7 @@ cl_st7::inst_rrc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -815,11 +803,7 @@ cl_st7::inst_sll(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (opres & 0x100));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -859,11 +843,7 @@ cl_st7::inst_sra(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -899,11 +879,7 @@ cl_st7::inst_srl(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -958,11 +934,7 @@ cl_st7::inst_swap(t_mem code, unsigned char prefix)
    
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -995,11 +967,7 @@ cl_st7::inst_tnz(t_mem code, unsigned char prefix)
    }
    
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    return(resGO);
 }
-- 
2.43.0


From 12e7044107980c582258fd50268b8dbdb8a24f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 092/212] fix: st7: LD from memory sets N and Z

---
 src/sims/st7.src/inst.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 7b1584a..f3f934a 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -554,10 +554,8 @@ cl_st7::inst_ldxy(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((prefix == 0x90) || (prefix == 0x91)) {
      regs.Y = operand;
@@ -575,10 +573,8 @@ cl_st7::inst_lda(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
   regs.A = operand;
    
-- 
2.43.0


From 168781a02c12886145b11944619e48cefa94495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 093/212] fix: st7: BTJT and BTJF copy the bit to C, indirect
 addressing of bit instructions

---
 src/sims/st7.src/inst.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index f3f934a..a2fbdb2 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -250,6 +250,8 @@ int
 cl_st7::inst_bresbset(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
+  if (prefix == 0x92)
+    ea = get1( ea);
   unsigned char dbyte = get1( ea);
   
   if (code & 0x01) { // bres  
@@ -270,8 +272,12 @@ int
 cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
+  if (prefix == 0x92)
+    ea = get1( ea);
   unsigned char dbyte = get1( ea);
-  char reljump = fetch();
+  signed char reljump = fetch();
+
+  FLAG_ASSIGN (BIT_C, dbyte & (1 << ((code >> 1) & 7)));
   
   if (code & 0x01) { // btjf  
 	char pos = (code - 0x01) >> 1;
-- 
2.43.0


From 28049032cce11bd57e70c7a433a20300501db9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 094/212] fix: st7: MUL clears H and C

---
 src/sims/st7.src/st7.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 7d7e490..f2f05ce 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -580,6 +580,8 @@ cl_st7::exec_inst(void)
             return( inst_jr( code, cprefix));
             break;
          case 0x40: // mul
+            FLAG_CLEAR (BIT_H);
+            FLAG_CLEAR (BIT_C);
             if(cprefix==0) {
                mulres = regs.X * regs.A;
                regs.A = mulres & 0xff;
-- 
2.43.0


From 7173602cb68df4da4a80180e343385be29b978a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 095/212] fix: st7: TRAP

---
 src/sims/st7.src/st7.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index f2f05ce..2c1294c 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -633,8 +633,13 @@ cl_st7::exec_inst(void)
             return( inst_cpl( code, cprefix));
             break;
          case 0x80: // trap
-	   //printf("************* TRAP instruction unimplemented !!!!\n");
-            return(resINV_INST);
+            push2( PC);
+            push1( regs.X);
+            push1( regs.A);
+            push1( regs.CC);
+            FLAG_SET (BIT_I);
+            PC = get2(0xfffc);
+            return(resGO);
             break;
          case 0x90: // 
             if(cprefix==0) {
-- 
2.43.0


From 71b5105d9d38c1a371b90695599145a847878e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 096/212] fix: hc08: addresses of stores, jumps and branches
 wrap at 64K

---
 src/sims/m68hc08.src/hc08mac.h |  2 +-
 src/sims/m68hc08.src/inst.cc   | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/m68hc08.src/hc08mac.h b/src/sims/m68hc08.src/hc08mac.h
index 66404ec..cdd4ebc 100644
--- a/src/sims/m68hc08.src/hc08mac.h
+++ b/src/sims/m68hc08.src/hc08mac.h
@@ -20,7 +20,7 @@
 #define store2(addr, val) { ram->write((t_addr) (addr) & 0xffff, (val >> 8) & 0xff); \
                             ram->write((t_addr) (addr+1) & 0xffff, val & 0xff); \
   			    vc.wr+=2; }
-#define store1(addr, val) { ram->write((t_addr) (addr), val); vc.wr++; }
+#define store1(addr, val) { ram->write((t_addr) (addr) & 0xffff, val); vc.wr++; }
 //#define get1(addr) ram->get((t_addr) (addr) & 0xffff)
 #define get1(addr) get_1(addr)
 //#define get2(addr) ((ram->get((t_addr) (addr) & 0xffff) << 8) | ram->get((t_addr) (addr+1) & 0xffff) )
diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index f1094d9..38af9e8 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -323,7 +323,7 @@ cl_hc08::inst_cpx(t_mem code, bool prefix)
 int
 cl_hc08::inst_jmp(t_mem code, bool prefix)
 {
-  PC = fetchea(code, prefix);
+  PC = fetchea(code, prefix) & 0xffff;
   tick(1); // extra cycle to reload pipeline
   return(resGO);
 }
@@ -331,7 +331,7 @@ cl_hc08::inst_jmp(t_mem code, bool prefix)
 int
 cl_hc08::inst_jsr(t_mem code, bool prefix)
 {
-  int newPC = fetchea(code, prefix);
+  int newPC = fetchea(code, prefix) & 0xffff;
 
   push2(PC);
   tick(2);
@@ -348,7 +348,7 @@ cl_hc08::inst_bsr(t_mem code, bool prefix)
 
   push2(PC);
   tick(2);
-  PC += ofs;
+  PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -692,7 +692,7 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1015,7 +1015,7 @@ cl_hc08::inst_condbranch(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1057,7 +1057,7 @@ cl_hc08::inst_bittestsetclear(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   FLAG_ASSIGN (BIT_C, operand & (1 << bit));
@@ -1091,7 +1091,7 @@ cl_hc08::inst_cbeq(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand1==operand2)
-    PC += ofs;  
+    PC = (PC + ofs) & 0xffff;  
 
   if (code == 0x71 || (!prefix && code == 0x61))
     incx();
-- 
2.43.0


From cc0eca7484e1d1ed770b4ad8c5058a8761365baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 097/212] fix: hc08: DBNZ does not change the condition codes

---
 src/sims/m68hc08.src/inst.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 38af9e8..b48c1de 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -675,8 +675,6 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   }
 
   operand--;
-  FLAG_NZ (operand);
-  FLAG_ASSIGN (BIT_V, operand == 0x7f);
 
   if ((code & 0xf0) == 0x40)
     regs.A = operand;
-- 
2.43.0


From 98451b78978a9b0504855d3c0f04b5e8ba69aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 098/212] fix: hc08: DAA adjusts the accumulator

---
 src/sims/m68hc08.src/inst.cc | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index b48c1de..30610d7 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -893,26 +893,16 @@ cl_hc08::inst_wait(t_mem code, bool prefix)
 int
 cl_hc08::inst_daa(t_mem code, bool prefix)
 {
-  uchar lsn, msn;
+  uchar corr = 0;
 
-  lsn = regs.A & 0xf;
-  msn = (regs.A >> 4) & 0xf;
-  if (regs.P & BIT_H) {
-    lsn += 16;
-    msn = (msn-1) & 0xf;
-  }
-  if (regs.P & BIT_C)
-    msn += 16;
-
-  FLAG_CLEAR (BIT_C);
-  while (lsn>9) {
-    lsn -= 10;
-    msn++;
-  }
-  if (msn>9) {
-    msn = msn % 10;
+  if ((regs.P & BIT_H) || (regs.A & 0xf) > 9)
+    corr |= 0x06;
+  if ((regs.P & BIT_C) || regs.A > 0x99) {
+    corr |= 0x60;
     FLAG_SET (BIT_C);
   }
+  regs.A += corr;
+  FLAG_NZ (regs.A);
 
   return(resGO);
 }
-- 
2.43.0


From 57c61c95efa717e108c0fef83cb44ba107a3ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:43 +0000
Subject: [PATCH 099/212] fix: hc08: SWI masks the interrupts

---
 src/sims/m68hc08.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 30610d7..1203031 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -1330,7 +1330,7 @@ cl_hc08::inst_swi(t_mem code, bool prefix)
   tick(1);
   push1(regs.P);
   tick(1);
-  FLAG_CLEAR(BIT_I);
+  FLAG_SET(BIT_I);
 
   PC = get2(0xfffc);
   tick(2);
-- 
2.43.0


From 7f1adb7f972defb624c7f006214c9f1a91253eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:43 +0000
Subject: [PATCH 100/212] fix: hc08: RSP changes the low byte of SP only

---
 src/sims/m68hc08.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 1203031..7adf716 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -158,7 +158,7 @@ cl_hc08::inst_setclearflags(t_mem code, bool prefix)
 int
 cl_hc08::inst_rsp(t_mem code, bool prefix)
 {
-  regs.SP = 0x00ff;
+  regs.SP |= 0x00ff;
   return(resGO);
 }
 
-- 
2.43.0


From 045d2044bddd3dd11d35df76da76b392bc3c7e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:43 +0000
Subject: [PATCH 101/212] fix: hc08: 9S08 executes the HCS08 forms of LDHX,
 STHX and CPHX

---
 src/sims/m68hc08.src/inst.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 7adf716..df06d42 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -1179,12 +1179,12 @@ cl_hc08::inst_sthx(t_mem code, bool prefix)
     ea = fetch();
     tick(1);
   }
-  else if ((code == 0x96) && (type->type == CPU_HCS08))
+  else if ((code == 0x96) && (type->type != CPU_HC08))
   {
     ea = fetch2();
     tick(2);
   }
-  else if (prefix && (code == 0xff) && (type->type == CPU_HCS08))
+  else if (prefix && (code == 0xff) && (type->type != CPU_HC08))
   {
     ea = regs.SP + fetch();
     tick(1);
@@ -1222,7 +1222,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if ((code == 0x32) && (type->type == CPU_HCS08)) {
+  else if ((code == 0x32) && (type->type != CPU_HC08)) {
     ea = fetch2();
     tick(2);
     regs.H = get1(ea);
@@ -1230,7 +1230,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xae) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xae) && (type->type != CPU_HC08)) {
     ea = (regs.H << 8) | regs.X;
     tick(1);
     regs.H = get1(ea);
@@ -1238,7 +1238,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xbe) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xbe) && (type->type != CPU_HC08)) {
     ea = ((regs.H << 8) | regs.X) + fetch2();
     tick(2);
     regs.H = get1(ea);
@@ -1246,7 +1246,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xce) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xce) && (type->type != CPU_HC08)) {
     ea = ((regs.H << 8) | regs.X) + fetch();
     tick(1);
     regs.H = get1(ea);
@@ -1254,7 +1254,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xfe) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xfe) && (type->type != CPU_HC08)) {
     ea = regs.SP + fetch();
     tick(1);
     regs.H = get1(ea);
@@ -1291,14 +1291,14 @@ cl_hc08::inst_cphx(t_mem code, bool prefix)
     tick(2);
     tick(1);
   }
-  else if ((code == 0x3e) && (type->type == CPU_HCS08)) {
+  else if ((code == 0x3e) && (type->type != CPU_HC08)) {
     ea = fetch2();
     tick(2);
     operand = (get1(ea) << 8) | get1(ea+1);
     tick(2);
     tick(1);
   }
-  else if (prefix && (code == 0xf3) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xf3) && (type->type != CPU_HC08)) {
     ea = ((unsigned char)fetch())+regs.SP;
     tick(1);
     operand = (get1(ea) << 8) | get1(ea+1);
-- 
2.43.0


From 88fcbd54bbaf050963f2f62ce77174181c9dafa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:56 +0000
Subject: [PATCH 102/212] fix: division by zero in an expression does not kill
 the simulator

---
 src/core/cmd.src/cmdpars.y | 50 +++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index c3aad3b..ec9140b 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -8,6 +8,7 @@
   //#include "stypes.h"
 
 static void yyerror (const char *msg);
+static bool divide(long a, long b, long *quotient, long *remainder);
 %}
 /*%expect 6*/
 
@@ -277,8 +278,8 @@ type_name
 multiplicative_expr
 : cast_expr { $$= $1; }
 | multiplicative_expr PTOK_ASTERIX cast_expr { $$= $1 * $3; }
-| multiplicative_expr PTOK_SLASH cast_expr { $$= $1 / $3; }
-| multiplicative_expr PTOK_PERCENT cast_expr { $$= $1 % $3; }
+| multiplicative_expr PTOK_SLASH cast_expr { divide($1, $3, &$$, NULL); }
+| multiplicative_expr PTOK_PERCENT cast_expr { divide($1, $3, NULL, &$$); }
 ;
 
 additive_expr
@@ -354,10 +355,18 @@ assignment_expr
 	      $1.memory->write($1.address, org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1.memory->write($1.address, org /= $3);
+	      {
+		long q;
+		if (divide(org, $3, &q, NULL))
+		  $1.memory->write($1.address, q);
+	      }
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1.memory->write($1.address, org %= $3);
+	      {
+		long q;
+		if (divide(org, $3, NULL, &q))
+		  $1.memory->write($1.address, q);
+	      }
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1.memory->write($1.address, org += $3);
@@ -404,10 +413,18 @@ assignment_expr
 	      $1->write(org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1->write(org /= $3);
+	      {
+		long q;
+		if (divide(org, $3, &q, NULL))
+		  $1->write(q);
+	      }
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1->write(org %= $3);
+	      {
+		long q;
+		if (divide(org, $3, NULL, &q))
+		  $1->write(q);
+	      }
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1->write(org += $3);
@@ -495,6 +512,27 @@ bit:
 
 %%
 
+static bool
+divide(long a, long b, long *quotient, long *remainder)
+{
+  long q= 0, r= 0;
+
+  if (b == 0)
+    yyerror("Divide by zero");
+  else if (b == -1)
+    q= 0UL - a; // negation does not trap on the smallest number
+  else
+    {
+      q= a / b;
+      r= a % b;
+    }
+  if (quotient)
+    *quotient= q;
+  if (remainder)
+    *remainder= r;
+  return b != 0;
+}
+
 static void
 yyerror (const char *msg)
 {
-- 
2.43.0


From 3ec55ca4b45d3991959c3c11015667a8294f173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:56 +0000
Subject: [PATCH 103/212] fix: assignment to bits in an expression

---
 src/core/cmd.src/cmdpars.y | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index ec9140b..a5ad23f 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -396,9 +396,9 @@ assignment_expr
 	{
 		t_mem mask = 0;
 		for (int i = $1.bitnr_low; i <= $1.bitnr_high; mask |= 1U << i++);
-		mask= ($1.memory->read($1.mem_address) & (~mask)) | (($3 & mask) << $1.bitnr_low);
-		$1.memory->write($1.mem_address, mask);
-		$$= mask;
+		t_mem val = ($1.memory->read($1.mem_address) & (~mask)) | (((t_mem)$3 << $1.bitnr_low) & mask);
+		$1.memory->write($1.mem_address, val);
+		$$= (val & mask) >> $1.bitnr_low;
 	}
 | PTOK_CELL assignment_operator assignment_expr
 	{
-- 
2.43.0


From c6fedfba00549c005821a42bd7fe7798f9b9b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:56 +0000
Subject: [PATCH 104/212] fix: bit variables in expressions mean the bits, not
 the whole cell

---
 src/core/cmd.src/cmdlex.l | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmdlex.l b/src/core/cmd.src/cmdlex.l
index b9835bf..713c45b 100644
--- a/src/core/cmd.src/cmdlex.l
+++ b/src/core/cmd.src/cmdlex.l
@@ -204,6 +204,26 @@ uc_yy_check_id(char *token)
       
       t_addr addr;
       bool found;
+      t_index i;
+      if (uc->vars->by_name.search(token, i))
+	{
+	  class cl_cvar *v= (class cl_cvar *)uc->vars->by_name.at(i);
+	  if (v->is_mem_var() &&
+	      (v->bitnr_low >= 0) &&
+	      ((v->bitnr_low > 0) ||
+	       (v->bitnr_high+1 < (int)v->get_mem()->width)))
+	    {
+	      // names just some bits of the cell
+	      yylval.bit.memory= v->get_mem();
+	      yylval.bit.mem_address= v->get_addr();
+	      yylval.bit.bitnr_high= v->bitnr_high;
+	      yylval.bit.bitnr_low= v->bitnr_low;
+	      yylval.bit.bit_address= -1;
+	      if (v->bitnr_high == v->bitnr_low)
+		yylval.bit.bit_address= uc->bit_address(v->get_mem(), v->get_addr(), v->bitnr_low);
+	      return PTOK_BITS;
+	    }
+	}
       if ((found= uc->symbol2address(yytext, &mem, &addr)))
 	  {
 	      yylval.memory.memory= mem;
@@ -222,7 +242,6 @@ uc_yy_check_id(char *token)
 	  return PTOK_BITS;
 	}
       {
-	t_index i;
 	found= uc->vars->by_name.search(token, i);
 	if (found)
 	  {
-- 
2.43.0


From a8568cb599138fb74028d25d9d784c10ae997787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 105/212] fix: gb80: 16 bit data at the end of the memory
 continues at its beginning

---
 src/sims/z80.src/gb80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 5e112c3..404c3cb 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -239,7 +239,7 @@ void
 cl_gb80::store2(u16_t addr, u16_t val)
 {
   rom->write(addr, val);
-  rom->write(addr+1, val>>8);
+  rom->write((u16_t)(addr+1), val>>8);
 }
 
 u8_t
@@ -252,7 +252,7 @@ u16_t
 cl_gb80::get2(u16_t addr)
 {
   u8_t l= rom->read(addr);
-  u8_t h= rom->read(addr+1);
+  u8_t h= rom->read((u16_t)(addr+1));
   return (h<<8)|l;
 }
 
-- 
2.43.0


From f1882b42647ac990645389aa1fca87fdd668c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 106/212] fix: gb80: DAA adjusts according to N, H and C and
 clears H, CCF clears H

---
 src/sims/z80.src/gb80cl.h     |  2 ++
 src/sims/z80.src/inst_gb80.cc | 30 ++++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index e859f24..d56b33b 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -100,6 +100,8 @@ public:
   virtual int inst_ret  (t_mem code);
   virtual int inst_jp   (t_mem code);
   virtual int inst_add  (t_mem code);
+  virtual int inst_daa  (t_mem code);
+  virtual int inst_ccf  (t_mem code);
 
   virtual int inst_st_sp_abs(t_mem code);
   virtual int inst_stop0    (t_mem code);
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 928b81e..da0fd5e 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -226,6 +226,36 @@ int cl_gb80::inst_add(t_mem code)
   return(resGO);
 }
 
+int cl_gb80::inst_daa(t_mem code)
+{
+  u8_t a= regs.raf.A, c= regs.raf.F & BIT_C;
+
+  if (regs.raf.F & BIT_N)
+    {
+      if (c) a-= 0x60;
+      if (regs.raf.F & BIT_A) a-= 6;
+    }
+  else
+    {
+      if (c || (regs.raf.A > 0x99))
+	{
+	  a+= 0x60;
+	  c= BIT_C;
+	}
+      if ((regs.raf.F & BIT_A) || ((regs.raf.A & 0x0f) > 9)) a+= 6;
+    }
+  regs.raf.A= a;
+  regs.raf.F= (regs.raf.F & BIT_N) | c | (a?0:BIT_Z);
+  return resGO;
+}
+
+int cl_gb80::inst_ccf(t_mem code)
+{
+  regs.raf.F&= ~(BIT_A | BIT_N);
+  regs.raf.F^= BIT_C;
+  return resGO;
+}
+
 int cl_gb80::inst_st_sp_abs(t_mem code) {
   if (code == 0x08) {
     u16_t addr = fetch2( );
-- 
2.43.0


From bda58119e50e97512a171cf49067cfe9e0bc6ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 107/212] fix: gb80: ADD SP,d and LDHL SP,d set H and C from
 the low byte

---
 src/sims/z80.src/inst_gb80.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index da0fd5e..3f14e50 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -354,9 +354,9 @@ int cl_gb80::inst_add_sp_d(t_mem code) {
   d |= (d>>7)*0xFF00;
   
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x0F) + (d & 0x0F) > 0x0F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0xFF) + (d & 0xFF) > 0xFF)
     regs.raf.F |= BIT_C;
   
   regs.SP = (regs.SP + d) & 0xffff;
@@ -388,9 +388,9 @@ int cl_gb80::inst_ldhl_sp (t_mem code) {
   d |= (d>>7)*0xFF00;
 
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x0F) + (d & 0x0F) > 0x0F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0xFF) + (d & 0xFF) > 0xFF)
     regs.raf.F |= BIT_C;
   
   regs.HL = (regs.SP + d) & 0xffff;
-- 
2.43.0


From 27397a976e5eed5ba4e58858c2eb14a7bb965459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 108/212] fix: z180: IN0 sets the flags, its form without
 register changes nothing else

---
 src/sims/z80.src/inst_ed.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index d3de581..d2c0926 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -65,7 +65,13 @@ int  cl_z80::inst_ed_(t_mem code)
         {
         case 0:  //  IN0
           ubtmp = fetch1( );
-          reg_g_store( (code >> 3) & 0x07, in_byte( ubtmp ) );
+          ubtmp = in_byte( ubtmp );
+          if (((code >> 3) & 0x07) != 6) // IN0 (n) sets flags only
+            reg_g_store( (code >> 3) & 0x07, ubtmp );
+          regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+          SET_S(ubtmp);
+          SET_Z(ubtmp);
+          if (parity(ubtmp)) regs.raf.F |= BIT_P;
           return resGO;
 
         case 1:  // OUT0
-- 
2.43.0


From 381cb052002b342bce09755c544ae69fd430d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 109/212] fix: z80n: LDIX and LDDX copy the bytes which differ
 from A

---
 src/sims/z80.src/z80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index c237bea..eee546b 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -1060,7 +1060,7 @@ cl_z80::inst_ldix(t_mem code)
   u8_t at_hl;
   at_hl= this->get1(regs.HL);
   vc.rd++;
-  if (at_hl == regs.raf.A)
+  if (at_hl != regs.raf.A)
     {
       this->store1(regs.DE, at_hl);
       vc.wr++;
@@ -1094,7 +1094,7 @@ cl_z80::inst_lddx(t_mem code)
   u8_t at_hl;
   at_hl= this->get1(regs.HL);
   vc.rd++;
-  if (at_hl == regs.raf.A)
+  if (at_hl != regs.raf.A)
     {
       this->store1(regs.DE, at_hl);
       vc.wr++;
-- 
2.43.0


From 83f9108264046256eff00c1a14ef8d0bd0267c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 110/212] fix: z80n: PIXELDN follows the layout of the screen

---
 src/sims/z80.src/z80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index eee546b..84c2840 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -993,10 +993,10 @@ bool cl_z80::inst_z80n(t_mem code, int *ret)
       vc.wr+= 2;
       break;
     case 0x93: // pixeldn
-      if (regs.HL!=0x0700)
+      if ((regs.HL&0x0700)!=0x0700)
 	regs.HL+= 256;
       else if ((regs.HL&0xe0)!=0xe0)
-	regs.HL= (regs.HL&0xf800)+0x20;
+	regs.HL= (regs.HL&0xf8ff)+0x20;
       else
 	regs.HL= (regs.HL&0xf81f)+0x0800;
       break;
-- 
2.43.0


From b74e05c169addb947214dc94801cf6804138b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:13 +0000
Subject: [PATCH 111/212] fix: i8048: length of ENT0 CLK and ANL BUS,#data in
 the table of instructions

---
 src/sims/i8048.src/decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 7b12907..5c652ab 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -125,7 +125,7 @@ DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 2, false, 2, (void*)"8---" )
+DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 2, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 78, ADCR0		, "adc a,r0"	, ' ', 1, false, 1, (void*)"8421" )
@@ -168,7 +168,7 @@ DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
-DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 1, false, 2, (void*)"8---" ) //48
+DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 2, false, 2, (void*)"8---" ) //48
 DEC( 99, ANLP1I8	, "anl p1,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9a, ANLP2I8	, "anl p2,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9c, ANLDP4A	, "anl p4,a"	, ' ', 1, false, 2, (void*)"8421" )
-- 
2.43.0


From 11b16ac967a0ccd71401858d99ea52fca23bbcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:14 +0000
Subject: [PATCH 112/212] fix: st7: length of CP X,#byte and of the 0x91
 prefixed LD instructions in the disassembler tables

---
 src/sims/st7.src/glob.cc | 116 +++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 58 deletions(-)

diff --git a/src/sims/st7.src/glob.cc b/src/sims/st7.src/glob.cc
index 4571a78..2e7bd56 100644
--- a/src/sims/st7.src/glob.cc
+++ b/src/sims/st7.src/glob.cc
@@ -122,19 +122,19 @@ struct dis_entry disass_st7[]= {
   { 0x0006, 0x00ff, ' ', 3, "btjt %d,#3,%p" },
   { 0x0008, 0x00ff, ' ', 3, "btjt %d,#4,%p" },
   { 0x000a, 0x00ff, ' ', 3, "btjt %d,#5,%p" },
-  { 0x000c, 0x00ff, ' ', 3, "btjt %d,#6,%p" },
-  { 0x000e, 0x00ff, ' ', 3, "btjt %d,#7,%p" },
-
-  { 0x00bd, 0x00ff, ' ', 2, "call %d", true },
-  { 0x00cd, 0x00ff, ' ', 3, "call %x", true },
-  { 0x00dd, 0x00ff, ' ', 3, "call (%2,X)", true },
-  { 0x00ed, 0x00ff, ' ', 2, "call (%1,X)", true },
-  { 0x00fd, 0x00ff, ' ', 1, "call (X)", true },
-//  { 0x008d, 0x00ff, ' ', 4, "callf %e" },
-  { 0x00ad, 0x00ff, ' ', 2, "callr %p", true },
-
-//  { 0x008c, 0x00ff, ' ', 1, "ccf" },
-
+  { 0x000c, 0x00ff, ' ', 3, "btjt %d,#6,%p" },
+  { 0x000e, 0x00ff, ' ', 3, "btjt %d,#7,%p" },
+
+  { 0x00bd, 0x00ff, ' ', 2, "call %d", true },
+  { 0x00cd, 0x00ff, ' ', 3, "call %x", true },
+  { 0x00dd, 0x00ff, ' ', 3, "call (%2,X)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call (%1,X)", true },
+  { 0x00fd, 0x00ff, ' ', 1, "call (X)", true },
+//  { 0x008d, 0x00ff, ' ', 4, "callf %e" },
+  { 0x00ad, 0x00ff, ' ', 2, "callr %p", true },
+
+//  { 0x008c, 0x00ff, ' ', 1, "ccf" },
+
 //  { 0x000f, 0x00ff, ' ', 2, "clr (%1,SP)" },
   { 0x003f, 0x00ff, ' ', 2, "clr %d" },
   { 0x004f, 0x00ff, ' ', 1, "clr A" },
@@ -150,7 +150,7 @@ struct dis_entry disass_st7[]= {
   { 0x00e1, 0x00ff, ' ', 2, "cp A,(%1,X)" },
   { 0x00f1, 0x00ff, ' ', 1, "cp A,(X)" },
 //  { 0x0013, 0x00ff, ' ', 2, "cpw X,(%1,SP)" },
-  { 0x00a3, 0x00ff, ' ', 3, "cp X,%w" },
+  { 0x00a3, 0x00ff, ' ', 2, "cp X,%b" },
   { 0x00b3, 0x00ff, ' ', 2, "cp X,%d" },
   { 0x00c3, 0x00ff, ' ', 3, "cp X,%x" },
   { 0x00d3, 0x00ff, ' ', 3, "cp X,(%2,X)" },
@@ -360,13 +360,13 @@ struct dis_entry disass_st7[]= {
   { 0x003d, 0x00ff, ' ', 2, "tnz %d" },
   { 0x004d, 0x00ff, ' ', 1, "tnz A" },
   { 0x006d, 0x00ff, ' ', 2, "tnz (%1,X)" },
-  { 0x007d, 0x00ff, ' ', 1, "tnz (X)" },
-  { 0x005d, 0x00ff, ' ', 1, "tnz X" },
-
-  { 0x0083, 0x00ff, ' ', 1, "trap", true },
-  { 0x008f, 0x00ff, ' ', 1, "wfi" },
-
-//  { 0x0018, 0x00ff, ' ', 2, "xor A,(%1,SP)" },
+  { 0x007d, 0x00ff, ' ', 1, "tnz (X)" },
+  { 0x005d, 0x00ff, ' ', 1, "tnz X" },
+
+  { 0x0083, 0x00ff, ' ', 1, "trap", true },
+  { 0x008f, 0x00ff, ' ', 1, "wfi" },
+
+//  { 0x0018, 0x00ff, ' ', 2, "xor A,(%1,SP)" },
   { 0x00a8, 0x00ff, ' ', 2, "xor A,%b" },
   { 0x00b8, 0x00ff, ' ', 2, "xor A,%d" },
   { 0x00c8, 0x00ff, ' ', 3, "xor A,%x" },
@@ -407,15 +407,15 @@ struct dis_entry disass_st7_90[]= {
 //  { 0x0016, 0x00ff, ' ', 3, "bcpl %d,#3" },
 //  { 0x0018, 0x00ff, ' ', 3, "bcpl %d,#4" },
 //  { 0x001a, 0x00ff, ' ', 3, "bcpl %d,#5" },
-//  { 0x001c, 0x00ff, ' ', 3, "bcpl %d,#6" },
-//  { 0x001e, 0x00ff, ' ', 3, "bcpl %d,#7" },
-
-  { 0x00dd, 0x00ff, ' ', 3, "call (%2,Y)", true },
-  { 0x00ed, 0x00ff, ' ', 2, "call (%1,Y)", true },
-  { 0x00fd, 0x00ff, ' ', 1, "call (Y)", true },
-
-//  { 0x004f, 0x00ff, ' ', 3, "clr (%2,Y)" },
-  { 0x006f, 0x00ff, ' ', 2, "clr (%1,Y)" },
+//  { 0x001c, 0x00ff, ' ', 3, "bcpl %d,#6" },
+//  { 0x001e, 0x00ff, ' ', 3, "bcpl %d,#7" },
+
+  { 0x00dd, 0x00ff, ' ', 3, "call (%2,Y)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call (%1,Y)", true },
+  { 0x00fd, 0x00ff, ' ', 1, "call (Y)", true },
+
+//  { 0x004f, 0x00ff, ' ', 3, "clr (%2,Y)" },
+  { 0x006f, 0x00ff, ' ', 2, "clr (%1,Y)" },
   { 0x007f, 0x00ff, ' ', 1, "clr (Y)" },
   { 0x005f, 0x00ff, ' ', 1, "clr Y" },
 
@@ -554,14 +554,14 @@ struct dis_entry disass_st7_91[]= {
   { 0x00db, 0x00ff, ' ', 2, "add A,([%1.w],Y)" },
   { 0x00eb, 0x00ff, ' ', 2, "add A,([%1],Y)" },
   { 0x00d4, 0x00ff, ' ', 2, "and A,([%1.w],Y)" },
-  { 0x00e4, 0x00ff, ' ', 2, "and A,([%1],Y)" },
-  { 0x00d5, 0x00ff, ' ', 2, "bcp A,([%1.w],Y)" },
-  { 0x00e5, 0x00ff, ' ', 2, "bcp A,([%1],Y)" },
-  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],Y)", true },
-  { 0x00ed, 0x00ff, ' ', 2, "call ([%1],Y)", true },
-  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],Y)" },
-  { 0x00d1, 0x00ff, ' ', 2, "cp A,([%1.w],Y)" },
-  { 0x00e1, 0x00ff, ' ', 2, "cp A,([%1],Y)" },
+  { 0x00e4, 0x00ff, ' ', 2, "and A,([%1],Y)" },
+  { 0x00d5, 0x00ff, ' ', 2, "bcp A,([%1.w],Y)" },
+  { 0x00e5, 0x00ff, ' ', 2, "bcp A,([%1],Y)" },
+  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],Y)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call ([%1],Y)", true },
+  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],Y)" },
+  { 0x00d1, 0x00ff, ' ', 2, "cp A,([%1.w],Y)" },
+  { 0x00e1, 0x00ff, ' ', 2, "cp A,([%1],Y)" },
   { 0x00b3, 0x00ff, ' ', 2, "cp Y,[%1]" },
   { 0x00c3, 0x00ff, ' ', 2, "cp Y,[%1.w]" },
   { 0x00d3, 0x00ff, ' ', 2, "cp Y,([%1.w],Y)" },
@@ -577,14 +577,14 @@ struct dis_entry disass_st7_91[]= {
   { 0x00e7, 0x00ff, ' ', 2, "ld ([%1],Y),A" },
 //  { 0x00a7, 0x00ff, ' ', 2, "ldf ([%2.e],Y),A" },
 //  { 0x00af, 0x00ff, ' ', 2, "ldf A,([%2.e],Y)" },
-  { 0x00be, 0x00ff, ' ', 3, "ld Y,[%1]" },
-  { 0x00ce, 0x00ff, ' ', 3, "ld Y,[%1.w]" },
-  { 0x00de, 0x00ff, ' ', 3, "ld Y,([%1.w],Y)" },
-  { 0x00ee, 0x00ff, ' ', 3, "ld Y,([%1],Y)" },
-  { 0x00bf, 0x00ff, ' ', 3, "ld [%1],Y" },
-  { 0x00cf, 0x00ff, ' ', 3, "ld [%1.w],Y" },
-  { 0x00df, 0x00ff, ' ', 3, "ld ([%1.w],Y),Y" },
-  { 0x00ef, 0x00ff, ' ', 3, "ld ([%1],Y),Y" },
+  { 0x00be, 0x00ff, ' ', 2, "ld Y,[%1]" },
+  { 0x00ce, 0x00ff, ' ', 2, "ld Y,[%1.w]" },
+  { 0x00de, 0x00ff, ' ', 2, "ld Y,([%1.w],Y)" },
+  { 0x00ee, 0x00ff, ' ', 2, "ld Y,([%1],Y)" },
+  { 0x00bf, 0x00ff, ' ', 2, "ld [%1],Y" },
+  { 0x00cf, 0x00ff, ' ', 2, "ld [%1.w],Y" },
+  { 0x00df, 0x00ff, ' ', 2, "ld ([%1.w],Y),Y" },
+  { 0x00ef, 0x00ff, ' ', 2, "ld ([%1],Y),Y" },
   { 0x0060, 0x00ff, ' ', 2, "neg ([%1],Y)" },
   { 0x00da, 0x00ff, ' ', 2, "or A,([%1.w],Y)" },
   { 0x00ea, 0x00ff, ' ', 2, "or A,([%1],Y)" },
@@ -657,18 +657,18 @@ struct dis_entry disass_st7_92[]= {
   { 0x0006, 0x00ff, ' ', 3, "btjt [%1],#3,%p" },
   { 0x0008, 0x00ff, ' ', 3, "btjt [%1],#4,%p" },
   { 0x000a, 0x00ff, ' ', 3, "btjt [%1],#5,%p" },
-  { 0x000c, 0x00ff, ' ', 3, "btjt [%1],#6,%p" },
-  { 0x000e, 0x00ff, ' ', 3, "btjt [%1],#7,%p" },
-
-  { 0x00cd, 0x00ff, ' ', 2, "call [%1]", true },
-  { 0x00cd, 0x00ff, ' ', 2, "call [%1.w]", true },
-  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],X)", true },
-  { 0x00dd, 0x00ff, ' ', 2, "call ([%1],X)", true },
-  { 0x00ad, 0x00ff, ' ', 2, "callr [%1]", true },
-//  { 0x008d, 0x00ff, ' ', 3, "callf [%2.e]", true },
-  { 0x003f, 0x00ff, ' ', 2, "clr [%1]" },
-  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],X)" },
-  { 0x00b1, 0x00ff, ' ', 2, "cp A,[%1]" },
+  { 0x000c, 0x00ff, ' ', 3, "btjt [%1],#6,%p" },
+  { 0x000e, 0x00ff, ' ', 3, "btjt [%1],#7,%p" },
+
+  { 0x00cd, 0x00ff, ' ', 2, "call [%1]", true },
+  { 0x00cd, 0x00ff, ' ', 2, "call [%1.w]", true },
+  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],X)", true },
+  { 0x00dd, 0x00ff, ' ', 2, "call ([%1],X)", true },
+  { 0x00ad, 0x00ff, ' ', 2, "callr [%1]", true },
+//  { 0x008d, 0x00ff, ' ', 3, "callf [%2.e]", true },
+  { 0x003f, 0x00ff, ' ', 2, "clr [%1]" },
+  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],X)" },
+  { 0x00b1, 0x00ff, ' ', 2, "cp A,[%1]" },
   { 0x00c1, 0x00ff, ' ', 2, "cp A,[%1.w]" },
   { 0x00d1, 0x00ff, ' ', 2, "cp A,([%1.w],X)" },
   { 0x00e1, 0x00ff, ' ', 2, "cp A,([%1],X)" },
-- 
2.43.0


From 71437e7a3d1f1558cab96adeaf3480a175904d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:14 +0000
Subject: [PATCH 113/212] fix: hc08: length of MOV opr,X+ and of the indexed
 DBNZ in the disassembler tables

---
 src/sims/m68hc08.src/glob.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/m68hc08.src/glob.cc b/src/sims/m68hc08.src/glob.cc
index 0675b2c..15b9299 100644
--- a/src/sims/m68hc08.src/glob.cc
+++ b/src/sims/m68hc08.src/glob.cc
@@ -143,7 +143,7 @@ struct dis_entry disass_hc08[]= {
   { 0x005b, 0x00ff, 'R', 2, "dbnzx %p" },
   { 0x005c, 0x00ff, ' ', 1, "incx" },
   { 0x005d, 0x00ff, ' ', 1, "tstx" },
-  { 0x005e, 0x00ff, ' ', 3, "mov %d,x+" },
+  { 0x005e, 0x00ff, ' ', 2, "mov %d,x+" },
   { 0x005f, 0x00ff, ' ', 1, "clrx" },
 
   { 0x0060, 0x00ff, ' ', 2, "neg %1,x" },
@@ -157,7 +157,7 @@ struct dis_entry disass_hc08[]= {
   { 0x0068, 0x00ff, ' ', 2, "lsl %1,x" },
   { 0x0069, 0x00ff, ' ', 2, "rol %1,x" },
   { 0x006a, 0x00ff, ' ', 2, "dec %1,x" },
-  { 0x006b, 0x00ff, 'R', 2, "dbnz %1,x,%p" },
+  { 0x006b, 0x00ff, 'R', 3, "dbnz %1,x,%p" },
   { 0x006c, 0x00ff, ' ', 2, "inc %1,x" },
   { 0x006d, 0x00ff, ' ', 2, "tst %1,x" },
   { 0x006e, 0x00ff, ' ', 3, "mov %b,%d" },
@@ -343,7 +343,7 @@ struct dis_entry disass_hc08_9e[]= {
   { 0x0068, 0x00ff, ' ', 2, "lsl %1,sp" },
   { 0x0069, 0x00ff, ' ', 2, "rol %1,sp" },
   { 0x006a, 0x00ff, ' ', 2, "dec %1,sp" },
-  { 0x006b, 0x00ff, 'R', 2, "dbnz %1,sp,%p" },
+  { 0x006b, 0x00ff, 'R', 3, "dbnz %1,sp,%p" },
   { 0x006c, 0x00ff, ' ', 2, "inc %1,sp" },
   { 0x006d, 0x00ff, ' ', 2, "tst %1,sp" },
   { 0x006f, 0x00ff, ' ', 2, "clr %1,sp" },
-- 
2.43.0


From c3e3feeff7ddcbc8f2ef1ecf11f4d44fcca010f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 114/212] fix: z80: length of ADD HL,DE and of the ED prefixed
 16 bit loads in the disassembler tables

---
 src/sims/z80.src/glob.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index 35a8d3f..d98f508 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -68,7 +68,7 @@ struct dis_entry disass_z80[]= {
   { 0x0017, 0x00ff, ' ', 1, "RLA" },
 
   { 0x0018, 0x00ff, 'R', 2, "JR %d" },
-  { 0x0019, 0x00ff, ' ', 3, "ADD HL,DE" },
+  { 0x0019, 0x00ff, ' ', 1, "ADD HL,DE" },
   { 0x001a, 0x00ff, ' ', 1, "LD A,(DE)" },
   { 0x001b, 0x00ff, ' ', 1, "DEC DE" },
   { 0x001c, 0x00ff, ' ', 1, "INC E" },
@@ -380,7 +380,7 @@ struct dis_entry disass_z80_ed[]= {
   { 0x0040, 0x00ff, ' ', 1, "IN B,(C)" },
   { 0x0041, 0x00ff, ' ', 1, "OUT (C),B" },
   { 0x0042, 0x00ff, ' ', 1, "SBC HL,BC" },
-  { 0x0043, 0x00ff, ' ', 1, "LD (nnnn),BC" },
+  { 0x0043, 0x00ff, ' ', 3, "LD (%w),BC" },
   { 0x0044, 0x00ff, ' ', 1, "NEG" },
   { 0x0045, 0x00ff, ' ', 1, "RETN" },
   { 0x0046, 0x00ff, ' ', 1, "IM 0" },
@@ -388,39 +388,39 @@ struct dis_entry disass_z80_ed[]= {
   { 0x0048, 0x00ff, ' ', 1, "IN C,(C)" },
   { 0x0049, 0x00ff, ' ', 1, "OUT (C),C" },
   { 0x004A, 0x00ff, ' ', 1, "ADC HL,BC" },
-  { 0x004B, 0x00ff, ' ', 1, "LD BC,(nnnn)" },
+  { 0x004B, 0x00ff, ' ', 3, "LD BC,(%w)" },
   { 0x004D, 0x00ff, ' ', 1, "RETI" },
   { 0x004F, 0x00ff, ' ', 1, "LD R,A" },
   { 0x0050, 0x00ff, ' ', 1, "IN D,(C)" },
   { 0x0051, 0x00ff, ' ', 1, "OUT (C),D" },
   { 0x0052, 0x00ff, ' ', 1, "SBC HL,DE" },
-  { 0x0053, 0x00ff, ' ', 1, "LD (nnnn),DE" },
+  { 0x0053, 0x00ff, ' ', 3, "LD (%w),DE" },
   { 0x0056, 0x00ff, ' ', 1, "IM 1" },
   { 0x0057, 0x00ff, ' ', 1, "LD A,IV" },
   { 0x0058, 0x00ff, ' ', 1, "IN E,(C)" },
   { 0x0059, 0x00ff, ' ', 1, "OUT (C),E" },
   { 0x005A, 0x00ff, ' ', 1, "ADC HL,DE" },
-  { 0x005B, 0x00ff, ' ', 1, "LD DE,(nnnn)" },
+  { 0x005B, 0x00ff, ' ', 3, "LD DE,(%w)" },
   { 0x005E, 0x00ff, ' ', 1, "IM 2" },
   { 0x005F, 0x00ff, ' ', 1, "LD A,R" },
   { 0x0060, 0x00ff, ' ', 1, "IN H,(C)" },
   { 0x0061, 0x00ff, ' ', 1, "OUT (C),H" },
   { 0x0062, 0x00ff, ' ', 1, "SBC HL,HL" },
-  { 0x0063, 0x00ff, ' ', 1, "LD (nnnn),HL" },
+  { 0x0063, 0x00ff, ' ', 3, "LD (%w),HL" },
   { 0x0067, 0x00ff, ' ', 1, "RRD" },
   { 0x0068, 0x00ff, ' ', 1, "IN L,(C)" },
   { 0x0069, 0x00ff, ' ', 1, "OUT (C),L" },
   { 0x006A, 0x00ff, ' ', 1, "ADC HL,HL" },
-  { 0x006B, 0x00ff, ' ', 1, "LD HL,(nnnn)" },
+  { 0x006B, 0x00ff, ' ', 3, "LD HL,(%w)" },
   { 0x006F, 0x00ff, ' ', 1, "RLD" },
   { 0x0070, 0x00ff, ' ', 1, "IN (C)" },
   { 0x0071, 0x00ff, ' ', 1, "OUT (C),0" },
   { 0x0072, 0x00ff, ' ', 1, "SBC HL,SP" },
-  { 0x0073, 0x00ff, ' ', 1, "LD (nnnn),SP" },
+  { 0x0073, 0x00ff, ' ', 3, "LD (%w),SP" },
   { 0x0078, 0x00ff, ' ', 1, "IN A,(C)" },
   { 0x0079, 0x00ff, ' ', 1, "OUT (C),A" },
   { 0x007A, 0x00ff, ' ', 1, "ADC HL,SP" },
-  { 0x007B, 0x00ff, ' ', 1, "LD SP,(nnnn)" },
+  { 0x007B, 0x00ff, ' ', 3, "LD SP,(%w)" },
   { 0x00A0, 0x00ff, ' ', 1, "LDI" },
   { 0x00A1, 0x00ff, ' ', 1, "CPI" },
   { 0x00A2, 0x00ff, ' ', 1, "INI" },
-- 
2.43.0


From a3d56a10f34a4c8e10a8b2ba81d96ff87b776ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 115/212] fix: m6809: length of the prefixed instructions, EXG,
 SEX and CWAI

---
 src/sims/m6809.src/m6809.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 15f1f1a..ca2f918 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -741,14 +741,14 @@ cl_m6809::inst_length(t_addr addr)
     {
       ret= 2;
       code= rom->get(addr+1);
-      ch= code>>4;
-      cl= code&0xf;
+      if (code==0x3f) return ret;
+      if ((code&0xf0)==0x20) return 4; // long branch
       int aml= 1;
       switch (code & 0x30)
 	{
 	case 0x00: aml= 1+1; break; // immed
 	case 0x10: aml= 1; break; // direct
-	case 0x20: aml= indexed_length(addr+1); break;// index
+	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
       ret+= aml;
@@ -763,7 +763,7 @@ cl_m6809::inst_length(t_addr addr)
 	{
 	case 0x00: aml= 1+1; break; // immed
 	case 0x10: aml= 1; break; // direct
-	case 0x20: aml= indexed_length(addr+1); break;// index
+	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
       ret+= aml;
@@ -796,13 +796,14 @@ cl_m6809::inst_length(t_addr addr)
       if (ch==1)
 	{
 	  if (cl==6||cl==7) return 3;
-	  if (cl==10||cl==12||cl==13||cl==15) return 2;
+	  if (cl==10||cl==12||cl==14||cl==15) return 2;
 	}
       if (ch==2) return 2;
       if (ch==3)
 	{
 	  if (cl < 4) return indexed_length(addr);
 	  if (cl < 8) return 2;
+	  if (cl == 12) return 2; // CWAI
 	}
       if (ch==6) return indexed_length(addr);
       if (ch==7) return 3; // extend
-- 
2.43.0


From 6871daa5d240a3680cfc1d8f838ffff2f612a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 116/212] fix: i8080, i8085: instruction length is known for
 the instructions of the processor specific tables

---
 src/sims/i8085.src/i8080.cc  | 8 ++++++++
 src/sims/i8085.src/i8080cl.h | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 7d39cef..c871a3a 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -198,6 +198,14 @@ cl_i8080::get_dis_entry(t_addr addr)
   return NULL;
 }
 
+int
+cl_i8080::inst_length(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+
+  return (de && de->mnemonic)?(de->length):1;
+}
+
 char rm_names[8]= {
   'B',
   'C',
diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index 8d8c004..3e30e97 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -140,6 +140,7 @@ public:
   virtual int clock_per_cycle(void) { return 1; }
   virtual struct dis_entry *dis_tbl(void);
   virtual struct dis_entry *get_dis_entry(t_addr addr);
+  virtual int inst_length(t_addr addr);
   virtual void dis_M(chars *comment);
   virtual void dis_rp8(chars *comment, int rp);
   virtual void dis_rp16(chars *comment, int rp);
-- 
2.43.0


From 719e27e7554809aecaa51016342da29f9e52ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 117/212] fix: hc11: codes and lengths of the prefixed
 instructions in the disassembler tables

---
 src/core/motorola.src/g11p18.cc | 18 +++++++++---------
 src/core/motorola.src/g11p1a.cc | 10 +++++-----
 src/core/motorola.src/g11pcd.cc |  6 +++---
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/core/motorola.src/g11p18.cc b/src/core/motorola.src/g11p18.cc
index 624e315..8f8b2f3 100644
--- a/src/core/motorola.src/g11p18.cc
+++ b/src/core/motorola.src/g11p18.cc
@@ -71,13 +71,13 @@ struct dis_entry disass11p18[]= {
   { 0xae, 0xff, ' ', 3, "LDS %X" },
   { 0xaf, 0xff, ' ', 3, "STS %X" },
   { 0xbc, 0xff, ' ', 4, "CPY %E" },
-  { 0xce, 0xff, ' ', 3, "LDY %B" },
+  { 0xce, 0xff, ' ', 4, "LDY %B" },
   { 0xde, 0xff, ' ', 3, "LDY %D" },
-  { 0xde, 0xff, ' ', 3, "LDY %X" },
-  { 0xfe, 0xff, ' ', 3, "LDY %E" },
+  { 0xee, 0xff, ' ', 3, "LDY %X" },
+  { 0xfe, 0xff, ' ', 4, "LDY %E" },
   { 0xdf, 0xff, ' ', 3, "STY %D" },
-  { 0xdf, 0xff, ' ', 3, "STY %X" },
-  { 0xff, 0xff, ' ', 3, "STY %E" },
+  { 0xef, 0xff, ' ', 3, "STY %X" },
+  { 0xff, 0xff, ' ', 4, "STY %E" },
   { 0xe0, 0xff, ' ', 3, "SUB B,%x" },
   { 0xe1, 0xff, ' ', 3, "CMP B,%x" },
   { 0xe2, 0xff, ' ', 3, "SBC B,%x" },
@@ -93,10 +93,10 @@ struct dis_entry disass11p18[]= {
   { 0xec, 0xff, ' ', 3, "LDD %X" },
   { 0xed, 0xff, ' ', 3, "STD %X" },
 
-  { 0x1c, 0xff, ' ', 3, "BSET %x,%b" },
-  { 0x1e, 0xff, 'R', 4, "BRSET %x,%b,%r" },
-  { 0x1d, 0xff, ' ', 3, "BCLR %x,%b" },
-  { 0x1f, 0xff, 'R', 4, "BRCLR %x,%b,%r" },
+  { 0x1c, 0xff, ' ', 4, "BSET %x,%b" },
+  { 0x1e, 0xff, 'R', 5, "BRSET %x,%b,%r" },
+  { 0x1d, 0xff, ' ', 4, "BCLR %x,%b" },
+  { 0x1f, 0xff, 'R', 5, "BRCLR %x,%b,%r" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/g11p1a.cc b/src/core/motorola.src/g11p1a.cc
index 96d42c9..5bcd6a2 100644
--- a/src/core/motorola.src/g11p1a.cc
+++ b/src/core/motorola.src/g11p1a.cc
@@ -32,14 +32,14 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 // code, mask, branch, len, mnem, iscall, ticks
 struct dis_entry disass11p1a[]= {
 
-  { 0x83, 0xff, ' ', 3, "CPD %B" },  
+  { 0x83, 0xff, ' ', 4, "CPD %B" },  
   { 0x93, 0xff, ' ', 3, "CPD %D" },  
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xb3, 0xff, ' ', 3, "CPD %E" },  
+  { 0xb3, 0xff, ' ', 4, "CPD %E" },  
 
-  { 0xad, 0xff, ' ', 3, "CPY %X" },
-  { 0xee, 0xff, ' ', 2, "LDY %x" },
-  { 0xef, 0xff, ' ', 2, "STY %x" },
+  { 0xac, 0xff, ' ', 3, "CPY %X" },
+  { 0xee, 0xff, ' ', 3, "LDY %x" },
+  { 0xef, 0xff, ' ', 3, "STY %x" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/g11pcd.cc b/src/core/motorola.src/g11pcd.cc
index f28dc1d..5eb0a90 100644
--- a/src/core/motorola.src/g11pcd.cc
+++ b/src/core/motorola.src/g11pcd.cc
@@ -33,9 +33,9 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 struct dis_entry disass11pcd[]= {
 
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xad, 0xff, ' ', 3, "CPD %X" },
-  { 0xee, 0xff, ' ', 2, "LDX %x" },
-  { 0xef, 0xff, ' ', 2, "STX %x" },
+  { 0xac, 0xff, ' ', 3, "CPX %X" },
+  { 0xee, 0xff, ' ', 3, "LDX %x" },
+  { 0xef, 0xff, ' ', 3, "STX %x" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
-- 
2.43.0


From 8885bcd85a82cfbc0290513ae4cb851faa7f8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 118/212] fix: stm8: opcode 0xa7 is LDF, there is no LD with
 immediate destination

---
 src/sims/stm8.src/glob.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sims/stm8.src/glob.cc b/src/sims/stm8.src/glob.cc
index 2e39b50..e83f0f9 100644
--- a/src/sims/stm8.src/glob.cc
+++ b/src/sims/stm8.src/glob.cc
@@ -182,7 +182,6 @@ struct dis_entry disass_stm8[]= {
   { 0x00e6, 0x00ff, ' ', 2, "ld A,(%1,X)" },
   { 0x00f6, 0x00ff, ' ', 1, "ld A,(X)" },
   { 0x006b, 0x00ff, ' ', 2, "ld (%1,SP),A" },
-  { 0x00a7, 0x00ff, ' ', 2, "ld %b,A" },
   { 0x00b7, 0x00ff, ' ', 2, "ld %d,A" },
   { 0x00c7, 0x00ff, ' ', 3, "ld %x,A" },
   { 0x00d7, 0x00ff, ' ', 3, "ld (%2,X),A" },
-- 
2.43.0


From eac49957c36c74e4a2f80742ad7343d80c73cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:22 +0000
Subject: [PATCH 119/212] fix: hc12: length of JMP ext and of the indexed BSET,
 BCLR, BRSET and BRCLR

---
 src/sims/m68hc12.src/decode12.h | 6 +++---
 src/sims/m68hc12.src/dis.cc     | 3 ++-
 src/sims/m68hc12.src/wfills.h   | 6 +++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sims/m68hc12.src/decode12.h b/src/sims/m68hc12.src/decode12.h
index e08ae73..77fda25 100644
--- a/src/sims/m68hc12.src/decode12.h
+++ b/src/sims/m68hc12.src/decode12.h
@@ -6,14 +6,14 @@ DEC(0, 02,	inxy	, _cY		, "INY"		, ' ', 1	, 1)
 DEC(0, 03,	dexy	, _cY		, "INY"		, ' ', 1	, 1)
 // 04 loop
 DEC(0, 05,	jump	, _xba		, "JMP %p"	, ' ', -2	, 0x643)
-DEC(0, 06,	jump	, _ea		, "JMP %e"	, ' ', 2	, 4)
+DEC(0, 06,	jump	, _ea		, "JMP %e"	, ' ', 3	, 4)
 DEC(0, 07,	bsr	, _NONE		, "BSR %r"	, ' ', 2	, 4)
 DEC(0, 08,	inxy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 09,	dexy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 0a,	rtc	, _NONE	 	, "RTC"		, ' ', 1	, 7)
 DEC(0, 0b,	rti	, _NONE	 	, "RTI"		, ' ', 1	, 8)
-DEC(0, 0c,	Or	, _xb_i8	, "BSET %p,%b"	, ' ', -4	, 4)
-DEC(0, 0d,	And	, _xb_i8n	, "BCLR %p,%b"	, ' ', -4	, 4)
+DEC(0, 0c,	Or	, _xb_i8	, "BSET %p,%b"	, ' ', -3	, 4)
+DEC(0, 0d,	And	, _xb_i8n	, "BCLR %p,%b"	, ' ', -3	, 4)
 DEC(0, 0e,	brset_id, _NONE		, "BRSET %p,%b,%r", ' ', -4	, 5)
 DEC(0, 0f,	brclr_id, _NONE		, "BRCLR %p,%b,%r", ' ', -4	, 5)
 
diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index d9a207e..e4b6c83 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -543,7 +543,8 @@ CL12::inst_length(t_addr addr)
       if (di->length >= 0)
 	return di->length;
       int l= -(di->length);
-      u16_t a= (u16_t)addr+l-1;
+      // postbyte follows the opcode
+      u16_t a= (u16_t)addr+((code==0x18)?2:1);
       u8_t p= rom->read(a);
       int corr= 0;
       if ((di->code == 0x4b)
diff --git a/src/sims/m68hc12.src/wfills.h b/src/sims/m68hc12.src/wfills.h
index 1ae69e6..af9ab65 100644
--- a/src/sims/m68hc12.src/wfills.h
+++ b/src/sims/m68hc12.src/wfills.h
@@ -2,14 +2,14 @@ virtual void fill_0_01() { page0[0x01 ]= wrap_0_01; set_disass(0, 0x01, "MEM", '
 virtual void fill_0_02() { page0[0x02 ]= wrap_0_02; set_disass(0, 0x02, "INY", ' ', 1); set_ticks(0, 0x02, 1); }
 virtual void fill_0_03() { page0[0x03 ]= wrap_0_03; set_disass(0, 0x03, "INY", ' ', 1); set_ticks(0, 0x03, 1); }
 virtual void fill_0_05() { page0[0x05 ]= wrap_0_05; set_disass(0, 0x05, "JMP %p", ' ', -2); set_ticks(0, 0x05, 0x643); }
-virtual void fill_0_06() { page0[0x06 ]= wrap_0_06; set_disass(0, 0x06, "JMP %e", ' ', 2); set_ticks(0, 0x06, 4); }
+virtual void fill_0_06() { page0[0x06 ]= wrap_0_06; set_disass(0, 0x06, "JMP %e", ' ', 3); set_ticks(0, 0x06, 4); }
 virtual void fill_0_07() { page0[0x07 ]= wrap_0_07; set_disass(0, 0x07, "BSR %r", ' ', 2); set_ticks(0, 0x07, 4); }
 virtual void fill_0_08() { page0[0x08 ]= wrap_0_08; set_disass(0, 0x08, "INX", ' ', 1); set_ticks(0, 0x08, 1); }
 virtual void fill_0_09() { page0[0x09 ]= wrap_0_09; set_disass(0, 0x09, "INX", ' ', 1); set_ticks(0, 0x09, 1); }
 virtual void fill_0_0a() { page0[0x0a ]= wrap_0_0a; set_disass(0, 0x0a, "RTC", ' ', 1); set_ticks(0, 0x0a, 7); }
 virtual void fill_0_0b() { page0[0x0b ]= wrap_0_0b; set_disass(0, 0x0b, "RTI", ' ', 1); set_ticks(0, 0x0b, 8); }
-virtual void fill_0_0c() { page0[0x0c ]= wrap_0_0c; set_disass(0, 0x0c, "BSET %p,%b", ' ', -4); set_ticks(0, 0x0c, 4); }
-virtual void fill_0_0d() { page0[0x0d ]= wrap_0_0d; set_disass(0, 0x0d, "BCLR %p,%b", ' ', -4); set_ticks(0, 0x0d, 4); }
+virtual void fill_0_0c() { page0[0x0c ]= wrap_0_0c; set_disass(0, 0x0c, "BSET %p,%b", ' ', -3); set_ticks(0, 0x0c, 4); }
+virtual void fill_0_0d() { page0[0x0d ]= wrap_0_0d; set_disass(0, 0x0d, "BCLR %p,%b", ' ', -3); set_ticks(0, 0x0d, 4); }
 virtual void fill_0_0e() { page0[0x0e ]= wrap_0_0e; set_disass(0, 0x0e, "BRSET %p,%b,%r", ' ', -4); set_ticks(0, 0x0e, 5); }
 virtual void fill_0_0f() { page0[0x0f ]= wrap_0_0f; set_disass(0, 0x0f, "BRCLR %p,%b,%r", ' ', -4); set_ticks(0, 0x0f, 5); }
 virtual void fill_0_10() { page0[0x10 ]= wrap_0_10; set_disass(0, 0x10, "ANDCC %b", ' ', 2); set_ticks(0, 0x10, 1); }
-- 
2.43.0


From d47afcc0fb6259cb015ea12f57f2cda60f427b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:22 +0000
Subject: [PATCH 120/212] fix: hc12: EDIVS of 0x80000000 by -1 does not kill
 the simulator

---
 src/sims/m68hc12.src/ialu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc12.src/ialu.cc b/src/sims/m68hc12.src/ialu.cc
index da3c91e..75af0b9 100644
--- a/src/sims/m68hc12.src/ialu.cc
+++ b/src/sims/m68hc12.src/ialu.cc
@@ -309,7 +309,7 @@ CL12::emuls(void)
 int
 CL12::edivs(void)
 {
-  i32_t op1= (rY<<16)+rD, q;
+  i64_t op1= (i32_t)(((u32_t)rY<<16)+rD), q;
   i16_t r;
   u8_t f= rF&~(flagN|flagZ|flagV|flagC);
   if (rX != 0)
-- 
2.43.0


From c521d1e452a68434a23b67cadb22dc019f602700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:22 +0000
Subject: [PATCH 121/212] fix: stm8: length of the prefixed ADDW, LDW and LDF
 instructions in the disassembler tables

---
 src/sims/stm8.src/glob.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/sims/stm8.src/glob.cc b/src/sims/stm8.src/glob.cc
index e83f0f9..8652264 100644
--- a/src/sims/stm8.src/glob.cc
+++ b/src/sims/stm8.src/glob.cc
@@ -357,7 +357,6 @@ struct dis_entry disass_stm8_72[]= {
   { 0x00bb, 0x00ff, ' ', 3, "addw X,%x" },
   { 0x00b9, 0x00ff, ' ', 3, "addw Y,%x" },
   { 0x00a9, 0x00ff, ' ', 3, "addw Y,%w" },
-  { 0x00f9, 0x00ff, ' ', 3, "addw Y,%d" },
   { 0x00fb, 0x00ff, ' ', 2, "addw X,(%1,SP)" },
   { 0x00f9, 0x00ff, ' ', 2, "addw Y,(%1,SP)" },
   { 0x00c4, 0x00ff, ' ', 3, "and A,[%2.w]" },
@@ -690,10 +689,10 @@ struct dis_entry disass_stm8_91[]= {
   { 0x00d7, 0x00ff, ' ', 2, "ld ([%1.w],Y),A" },
   { 0x00a7, 0x00ff, ' ', /*2*/3, "ldf ([%2.e],Y),A" }, // 91
   { 0x00af, 0x00ff, ' ', /*2*/3, "ldf A,([%2.e],Y)" },
-  { 0x00ce, 0x00ff, ' ', 3, "ldw Y,[%1.w]" },
-  { 0x00de, 0x00ff, ' ', 3, "ldw Y,([%1.w],Y)" },
-  { 0x00cf, 0x00ff, ' ', 3, "ldw [%1.w],Y" },
-  { 0x00df, 0x00ff, ' ', 3, "ldw ([%1.w],Y),X" },
+  { 0x00ce, 0x00ff, ' ', 2, "ldw Y,[%1.w]" },
+  { 0x00de, 0x00ff, ' ', 2, "ldw Y,([%1.w],Y)" },
+  { 0x00cf, 0x00ff, ' ', 2, "ldw [%1.w],Y" },
+  { 0x00df, 0x00ff, ' ', 2, "ldw ([%1.w],Y),X" },
   { 0x0060, 0x00ff, ' ', 2, "neg ([%1.w],Y)" },
   { 0x00da, 0x00ff, ' ', 2, "or A,([%1.w],Y)" },
   { 0x0069, 0x00ff, ' ', 2, "rlc ([%1.w],Y)" },
@@ -745,7 +744,7 @@ struct dis_entry disass_stm8_92[]= {
   { 0x00d7, 0x00ff, ' ', 2, "ld ([%1.w],X),A" },
   { 0x00a7, 0x00ff, ' ', /*2*/3, "ldf ([%2.e],X),A" },
   { 0x00af, 0x00ff, ' ', /*2*/3, "ldf A,([%2.e],X)" },
-  { 0x00bc, 0x00ff, ' ', 2, "ldf A,[%1.e]" },
+  { 0x00bc, 0x00ff, ' ', 3, "ldf A,[%2.e]" },
   { 0x00ce, 0x00ff, ' ', 2, "ldw X,[%1.w]" },
   { 0x00de, 0x00ff, ' ', 2, "ldw X,([%1.w],X)" },
   { 0x00cf, 0x00ff, ' ', 2, "ldw [%1.w],X" },
-- 
2.43.0


From 4cb61f88b9fb6176094abcd051df1c4a502a851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:30 +0000
Subject: [PATCH 122/212] fix: f8: length of the (n,y) addressed instructions,
 LDW and XCHW in the disassembler table

---
 src/sims/f8.src/glob.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index 838a343..ca00c3a 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -89,8 +89,8 @@ struct dis_entry disass_f8[]=
     { 0xce, 0xff, ' ', 2, "ldw ('nA_16'),%R" },
     { 0x70, 0xff, ' ', 1, "ldw %A, sp" },
     { 0x74, 0xff, ' ', 2, "ldw (('nsp_16')),%A" },
-    { 0xdc, 0xff, ' ', 2, "ldw %A,z" },
-    { 0xde, 0xff, ' ', 2, "ldw %R,(%A)" },
+    { 0xdc, 0xff, ' ', 1, "ldw %A,z" },
+    { 0xde, 0xff, ' ', 1, "ldw %R,(%A)" },
 
     { 0xed, 0xff, ' ', 2, "ldi ('ny_8'),(z)" },
     { 0xcf, 0xff, ' ', 2, "ldwi ('ny16'),(z)" },
@@ -98,7 +98,7 @@ struct dis_entry disass_f8[]=
     { 0x60, 0xff, ' ', 3, "push 'a16_8'" },
     { 0x61, 0xff, ' ', 2, "push ('nsp_8')" },
     { 0x62, 0xff, ' ', 1, "push %a" },
-    { 0x63, 0xff, ' ', 1, "push ('ny_8')" },
+    { 0x63, 0xff, ' ', 2, "push ('ny_8')" },
     { 0x90, 0xff, ' ', 2, "push #'i8'" },
 
     { 0xb0, 0xff, ' ', 3, "pushw 'a16_16'" },
@@ -114,7 +114,7 @@ struct dis_entry disass_f8[]=
     { 0x92, 0xff, ' ', 1, "xch %a,('y_8')" },
     { 0x93, 0xff, ' ', 1, "xch %L,%H" },
     { 0xf4, 0xff, ' ', 1, "xchw %R,('%A')" },
-    { 0xf5, 0xff, ' ', 1, "xchw %A,('nsp_16')" },
+    { 0xf5, 0xff, ' ', 2, "xchw %A,('nsp_16')" },
 
     { 0x9b, 0xff, ' ', 1, "cax ('y_8'),xh,yl" },
     { 0xf9, 0xff, ' ', 1, "caxw ('y_16'),z,x" },
@@ -235,32 +235,32 @@ struct dis_entry disass_f8[]=
     { 0x40, 0xff, ' ', 3, "srl 'a16_8'" },
     { 0x41, 0xff, ' ', 2, "srl ('nsp_8')" },
     { 0x42, 0xff, ' ', 1, "srl %a" },
-    { 0x43, 0xff, ' ', 1, "srl ('ny_8')" },
+    { 0x43, 0xff, ' ', 2, "srl ('ny_8')" },
     { 0x44, 0xff, ' ', 3, "sll 'a16_8'" },
     { 0x45, 0xff, ' ', 2, "sll ('nsp_8')" },
     { 0x46, 0xff, ' ', 1, "sll %a" },
-    { 0x47, 0xff, ' ', 1, "sll ('ny_8')" },
+    { 0x47, 0xff, ' ', 2, "sll ('ny_8')" },
     { 0x48, 0xff, ' ', 3, "rrc 'a16_8'" },
     { 0x49, 0xff, ' ', 2, "rrc ('nsp_8')" },
     { 0x4a, 0xff, ' ', 1, "rrc %a" },
-    { 0x4b, 0xff, ' ', 1, "rrc ('ny_8')" },
+    { 0x4b, 0xff, ' ', 2, "rrc ('ny_8')" },
     { 0x4c, 0xff, ' ', 3, "rlc 'a16_8'" },
     { 0x4d, 0xff, ' ', 2, "rlc ('nsp_8')" },
     { 0x4e, 0xff, ' ', 1, "rlc %a" },
-    { 0x4f, 0xff, ' ', 1, "rlc ('ny_8')" },
+    { 0x4f, 0xff, ' ', 2, "rlc ('ny_8')" },
 
     { 0x50, 0xff, ' ', 3, "inc 'a16_8'" },
     { 0x51, 0xff, ' ', 2, "inc ('nsp_8')" },
     { 0x52, 0xff, ' ', 1, "inc %a" },
-    { 0x53, 0xff, ' ', 1, "inc ('ny_8')" },
+    { 0x53, 0xff, ' ', 2, "inc ('ny_8')" },
     { 0x54, 0xff, ' ', 3, "dec 'a16_8'" },
     { 0x55, 0xff, ' ', 2, "dec ('nsp_8')" },
     { 0x56, 0xff, ' ', 1, "dec %a" },
-    { 0x57, 0xff, ' ', 1, "dec ('ny_8')" },
+    { 0x57, 0xff, ' ', 2, "dec ('ny_8')" },
     { 0x5c, 0xff, ' ', 3, "tst 'a16_8'" },
     { 0x5d, 0xff, ' ', 2, "tst ('nsp_8')" },
     { 0x5e, 0xff, ' ', 1, "tst %a" },
-    { 0x5f, 0xff, ' ', 1, "tst ('ny_8')" },
+    { 0x5f, 0xff, ' ', 2, "tst ('ny_8')" },
 
     { 0xa4, 0xff, ' ', 3, "incw 'a16_16'" },
     { 0xa5, 0xff, ' ', 2, "incw ('nsp_16')" },
-- 
2.43.0


From 1b653017369691034ebb1bbb8ee7fed1b4d2d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 123/212] fix: f8: opcode 0x5b is disassembled as it is
 executed

---
 src/sims/f8.src/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index ca00c3a..f0c4ba6 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -122,7 +122,7 @@ struct dis_entry disass_f8[]=
     { 0x58, 0xff, ' ', 3, "clr 'a16_8'" },
     { 0x59, 0xff, ' ', 2, "clr ('nsp_8')" },
     { 0x5a, 0xff, ' ', 1, "clr %a" },
-    { 0x5b, 0xff, ' ', 1, "clr zh" },
+    { 0x5b, 0xff, ' ', 2, "clr ('ny_8')" },
     { 0xa0, 0xff, ' ', 3, "clrw 'a16_16'" },
     { 0xa1, 0xff, ' ', 2, "clrw ('nsp_16')" },
     { 0xa2, 0xff, ' ', 3, "clrw ('nnz_16')" },
-- 
2.43.0


From 7f6ce5fa44f2818be7052e9ab88dada2e1d3e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:12 +0000
Subject: [PATCH 124/212] fix: tlcs90: code of AND HL,(rr) and length of LDW in
 the disassembler table

---
 src/sims/tlcs.src/glob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/tlcs.src/glob.cc b/src/sims/tlcs.src/glob.cc
index 10f6125..e60905a 100644
--- a/src/sims/tlcs.src/glob.cc
+++ b/src/sims/tlcs.src/glob.cc
@@ -61,7 +61,7 @@ struct dis_entry disass_tlcs[]= {
   { 0x1e, 0xff, ' ', 1, "RET" },
   { 0x1f, 0xff, ' ', 1, "RETI" },
   { 0x000037, 0x0000ff, 'n', 3, "LD (0xff%n),%N" },
-  { 0x00003f, 0x0000ff, 'm', 3, "LDW (0xff%n),%m" },
+  { 0x00003f, 0x0000ff, 'm', 4, "LDW (0xff%n),%m" },
   { 0x0097, 0x00ff, 'n', 2, "INCW (0xff%n)" },
   { 0x009F, 0x00ff, 'n', 2, "DECW (0xff%n)" },
   { 0xa0, 0xff, ' ', 1, "RLCA" },
@@ -364,7 +364,7 @@ struct dis_entry disass_tlcs[]= {
   { 0x71e0, 0xfff8, 'R', 2, "ADC HL,(%R)" },
   { 0x72e0, 0xfff8, 'R', 2, "SUB HL,(%R)" },
   { 0x73e0, 0xfff8, 'R', 2, "SBC HL,(%R)" },
-  { 0x70e0, 0xfff8, 'R', 2, "AND HL,(%R)" },
+  { 0x74e0, 0xfff8, 'R', 2, "AND HL,(%R)" },
   { 0x75e0, 0xfff8, 'R', 2, "XOR HL,(%R)" },
   { 0x76e0, 0xfff8, 'R', 2, "OR HL,(%R)" },
   { 0x77e0, 0xfff8, 'R', 2, "CP HL,(%R)" },
-- 
2.43.0


From c372906f81a0b6a9d7c3ec3596cd26e8fe681491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:03 +0000
Subject: [PATCH 125/212] fix: z80: there is no RLC B at ED 00; gb80: length of
 ADD HL,DE and of the loads addressed by C

---
 src/sims/z80.src/glob.cc      | 1 -
 src/sims/z80.src/glob_gb80.cc | 6 +++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index d98f508..9b91a7f 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -376,7 +376,6 @@ struct dis_entry disass_z180_ed[]= {
 };
   
 struct dis_entry disass_z80_ed[]= {
-  { 0x0000, 0x00ff, ' ', 1, "RLC B" },
   { 0x0040, 0x00ff, ' ', 1, "IN B,(C)" },
   { 0x0041, 0x00ff, ' ', 1, "OUT (C),B" },
   { 0x0042, 0x00ff, ' ', 1, "SBC HL,BC" },
diff --git a/src/sims/z80.src/glob_gb80.cc b/src/sims/z80.src/glob_gb80.cc
index c823420..5b75950 100644
--- a/src/sims/z80.src/glob_gb80.cc
+++ b/src/sims/z80.src/glob_gb80.cc
@@ -70,7 +70,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
   { 0x0017, 0x00ff, ' ', 1, "RLA" },
 
   { 0x0018, 0x00ff, 'R', 2, "JR %d" },
-  { 0x0019, 0x00ff, ' ', 3, "ADD HL,DE" },
+  { 0x0019, 0x00ff, ' ', 1, "ADD HL,DE" },
   { 0x001a, 0x00ff, ' ', 1, "LD A,(DE)" },
   { 0x001b, 0x00ff, ' ', 1, "DEC DE" },
   { 0x001c, 0x00ff, ' ', 1, "INC E" },
@@ -313,7 +313,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
 
   { 0x00e0, 0x00ff, ' ', 2, "LDH (0xFF00+%b),A" },  // unique to GB80
   { 0x00e1, 0x00ff, ' ', 1, "POP HL" },
-  { 0x00e2, 0x00ff, 'A', 2, "LD (0xFF00+C),A" },  // unique to GB80
+  { 0x00e2, 0x00ff, ' ', 1, "LD (0xFF00+C),A" },  // unique to GB80
   { 0x00e3, 0x00ff, ' ', 1, "Illegal Op" },
   { 0x00e4, 0x00ff, 'l', 1, "Illegal Op" },
   { 0x00e5, 0x00ff, ' ', 1, "PUSH HL" },
@@ -331,7 +331,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
 
   { 0x00f0, 0x00ff, ' ', 2, "LDH A,(0xFF00+%b)" },  // unique to GB80
   { 0x00f1, 0x00ff, ' ', 1, "POP AF" },
-  { 0x00f2, 0x00ff, ' ', 2, "LD A,(0xFF00+C)" },  // unique to GB80
+  { 0x00f2, 0x00ff, ' ', 1, "LD A,(0xFF00+C)" },  // unique to GB80
   { 0x00f3, 0x00ff, ' ', 1, "DI" },
   { 0x00f4, 0x00ff, 'l', 3, "Illegal Op" },
   { 0x00f5, 0x00ff, ' ', 1, "PUSH AF" },
-- 
2.43.0


From 43f1994b626644c7e71e4789df9eb8ef5c4b8a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:03 +0000
Subject: [PATCH 126/212] fix: mos6502: undefined opcodes are one byte long, dc
 command goes on after them

---
 src/sims/mos6502.src/mos6502.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index b55b5b2..f289b92 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -710,8 +710,8 @@ int
 cl_mos6502::inst_length(t_addr addr)
 {
   struct dis_entry *de= get_dis_entry(addr);
-  if (!de)
-    return 0;
+  if (!de || !de->mnemonic)
+    return 1;
   return de->length;
 }
 
-- 
2.43.0


From c849a109aeb525c49912546095936ffc7895f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 127/212] fix: i8048: conditional jump goes to the page of its
 second byte

---
 src/sims/i8048.src/branch.cc | 15 ++++-----------
 src/sims/i8048.src/i8020.cc  |  2 +-
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 8286f10..ce79c45 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -53,25 +53,18 @@ CL2::call(MP)
 int
 CL2::jb(MP)
 {
-  u8_t a= fetch();
   u8_t m= 1<<((code>>5)&7);
-  if (rA & m)
-    {
-      PC&= 0xf00;
-      PC|= a;
-    }
-  return resGO;
+  return jif(rA & m);
 }
 
 int
 CL2::jif(bool cond)
 {
+  // target is on the page where the second byte is
+  u16_t page= PC & 0xf00;
   u8_t a= fetch();
   if (cond)
-    {
-      PC&= 0xf00;
-      PC|= a;
-    }
+    PC= page | a;
   return resGO;
 }
 
diff --git a/src/sims/i8048.src/i8020.cc b/src/sims/i8048.src/i8020.cc
index e985e03..5adcded 100644
--- a/src/sims/i8048.src/i8020.cc
+++ b/src/sims/i8048.src/i8020.cc
@@ -402,7 +402,7 @@ cl_i8020::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "a8") == 0)
 	    {
-	      a= addr & 0xf00;
+	      a= (addr+1) & 0xf00;
 	      a|= rom->read(addr+1);
 	      work.appendf("0x%04x", a);
 	    }
-- 
2.43.0


From c6c8ecb5fffcc3653b977a402cb5ca864a0648a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 128/212] fix: i8048: DJNZ counts the register of its opcode
 and stops at zero

---
 src/sims/i8048.src/branch.cc | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index ce79c45..82ff97e 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -156,15 +156,10 @@ CL2::JMPPIA(MP)
 int
 CL2::djnz(MP)
 {
-  u8_t r= (code>>5)&7;
-  u8_t a= fetch();
-  R[r]->W(R[r]->R() - 1);
-  if (R[r] != 0)
-    {
-      PC&= 0xf00;
-      PC+= a;
-    }
-  return resGO;
+  u8_t r= code&7;
+  u8_t v= R[r]->R() - 1;
+  R[r]->W(v);
+  return jif(v != 0);
 }
 
 
-- 
2.43.0


From 57ab55b0ce513e293bdad8a8adc138253c4a4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 129/212] fix: i8048: ADDC A,@Rr

---
 src/sims/i8048.src/i8020cl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index a89545a..e669352 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -231,6 +231,8 @@ protected:
   int ADDR5(MP) { return add(R[5]->read(), false); }
   int ADDR6(MP) { return add(R[6]->read(), false); }
   int ADDR7(MP) { return add(R[7]->read(), false); }
+  int ADCIR0(MP) { return add(read_ir(0), true); }
+  int ADCIR1(MP) { return add(read_ir(1), true); }
   int ADCR0(MP) { return add(R[0]->read(), true); }
   int ADCR1(MP) { return add(R[1]->read(), true); }
   int ADCR2(MP) { return add(R[2]->read(), true); }
-- 
2.43.0


From e38217cfebf263970da07f1cbd1a8753944ac244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 130/212] fix: i8048: MOVP3 reads page 3 in every memory bank

---
 src/sims/i8048.src/move.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sims/i8048.src/move.cc b/src/sims/i8048.src/move.cc
index d8cd399..03618fc 100644
--- a/src/sims/i8048.src/move.cc
+++ b/src/sims/i8048.src/move.cc
@@ -89,8 +89,7 @@ CL2::movp(void)
 int
 CL2::movp3(void)
 {
-  u16_t a= PC & 0x800;
-  a|= (0x300+rA);
+  u16_t a= 0x300 + rA;
   cA.W(rom->read(a));
   if (a >= inner_rom)
     bus->latch(a);
-- 
2.43.0


From 17857b04b0a5e3972a0126d11650e6a4ccc512e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 131/212] fix: i8048: ORLD and ANLD work on the port of the
 opcode

---
 src/sims/i8048.src/i8020cl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index e669352..d6b3804 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -281,14 +281,14 @@ protected:
   int RR(MP);
   int RL(MP);
   int RLC(MP);
-  int ORLDP4A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP5A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP6A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP7A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ANLDP4A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP5A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP6A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP7A(MP) { RDWR; return anld(4+(code>>6), &cA); }
+  int ORLDP4A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP5A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP6A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP7A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ANLDP4A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP5A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP6A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP7A(MP) { RDWR; return anld(4+(code&3), &cA); }
   int CLRC(MP) { cF.W(psw & ~flagC); return resGO; }
   int CPLC(MP) { cF.W(psw ^ flagC); return resGO; }
   int XRLIR0(MP) { RD; return xrl(iram_ir(0)); }
-- 
2.43.0


From 4e8b44f0e461edf165efb54c51f37f7eb8a833ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 132/212] fix: i8048: data of the port expander goes to low
 half of P2 only

---
 src/sims/i8048.src/port.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/port.cc b/src/sims/i8048.src/port.cc
index cb6b030..b57056f 100644
--- a/src/sims/i8048.src/port.cc
+++ b/src/sims/i8048.src/port.cc
@@ -219,7 +219,7 @@ cl_p2::set_low(u8_t val)
   r&= 0xf0;
   val&= 0xf;
   r|= val;
-  cfg_write(port_odr, val);
+  cfg_write(port_odr, r);
 }
 
 
-- 
2.43.0


From 320edb16890204eb8062ad964abd141c386703e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 133/212] fix: i8048: machine cycles of ANL A,#data, ENT0 CLK
 and MOV @Rr,A

---
 src/sims/i8048.src/decode.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 5c652ab..011d8e6 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -90,7 +90,7 @@ DEC( 4f, ORLR7		, "orl a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 50, ANLIR0		, "anl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 51, ANLIR1		, "anl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 52, JB2		, "jb2 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
-DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 1, (void*)"8421" )
+DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 55, STRTT		, "strt t"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 56, JT1		, "jt1 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
@@ -125,7 +125,7 @@ DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 2, (void*)"8---" )
+DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 1, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 78, ADCR0		, "adc a,r0"	, ' ', 1, false, 1, (void*)"8421" )
@@ -176,8 +176,8 @@ DEC( 9d, ANLDP5A	, "anl p5,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9e, ANLDP6A	, "anl p6,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9f, ANLDP7A	, "anl p7,a"	, ' ', 1, false, 2, (void*)"8421" )
 
-DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 2, (void*)"8421" )
-DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 2, (void*)"8421" )
+DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 1, (void*)"8421" )
+DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 1, (void*)"8421" )
 // a2 undefined
 DEC( a3, MOVPAIA	, "movp a,@a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( a4, JMP5   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"8421" )
-- 
2.43.0


From 8faae038ec3cdd534bc28d4abea99255e857ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 134/212] fix: i8048: JMP and CALL to the upper 1K on UPI-42
 types

---
 src/sims/i8048.src/decode.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 011d8e6..9a3d970 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -164,7 +164,7 @@ DEC( 91, MOVXIR1A	, "movx @r1,a"	, ' ', 1, false, 2, (void*)"8---" ) //48
 DEC( 92, JB4		, "jb4 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETR		, "retr"	, '_', 1, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETI		, "ret i"	, '_', 1, false, 2, (void*)"--2-" ) //22
-DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,42,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
@@ -197,7 +197,7 @@ DEC( b0, MOVIR0I8	, "mov @r0,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b1, MOVIR1I8	, "mov @r1,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b2, JB5		, "jb5 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( b3, JMPPIA		, "jmpp @a"	, '_', 1, false, 2, (void*)"8421" )
-DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,42,22
 DEC( b5, CPLF1		, "cpl f1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( b6, JF0		, "jf0 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // b7 undefined
@@ -214,7 +214,7 @@ DEC( bf, MOVR7I8	, "mov r7,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
 // c1 undefined
 // c2 undefined
 // c3 undefined
-DEC( c4, JMP6   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( c4, JMP6   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"842-" ) //48,42,22
 DEC( c5, SELRB0		, "sel rb0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( c6, JZ		, "jz 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
 DEC( c7, MOVAF		, "mov a,psw"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
@@ -231,7 +231,7 @@ DEC( d0, XRLIR0		, "xrl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d1, XRLIR1		, "xrl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d2, JB6		, "jb6 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( d3, XRLI8		, "xrl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,42,22
 DEC( d5, SELRB1		, "sel rb1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( d6, JNIBF 		, "jnibf 'a8'" 	, 'i', 2, false, 2, (void*)"-4--" ) //41
 DEC( d7, MOVFA		, "mov psw,a"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
@@ -248,7 +248,7 @@ DEC( df, XRLR7		, "xrl a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 // e1 undefined
 // e2 undefined
 DEC( e3, MOVP3AIA	, "movp3 a,@a"	, ' ', 1, false, 2, (void*)"84--" ) //48,41
-DEC( e4, JMP7   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( e4, JMP7   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"842-" ) //48,42,22
 DEC( e5, SELMB0		, "sel mb0"	, ' ', 1, false, 1, (void*)"8---" ) //48
 DEC( e5, ENDMA		, "en dma"	, ' ', 1, false, 1, (void*)"-4--" ) //41
 DEC( e6, JNC		, "jnc 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
@@ -266,7 +266,7 @@ DEC( f0, MOVAIR0	, "mov a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f1, MOVAIR1	, "mov a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f2, JB7		, "jb7 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // f3 undefined
-DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,42,22
 DEC( f5, SELMB1		, "sel mb1"	, ' ', 1, false, 1, (void*)"8---" ) //48
 DEC( f5, ENFLAGS	, "en flags"	, ' ', 1, false, 1, (void*)"-4--" ) //41
 DEC( f6, JC		, "jc 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
-- 
2.43.0


From 73b9319a36d44a87db4572b79778173f53989496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 135/212] fix: i8041: OUT DBB,A sets OBF

---
 src/sims/i8048.src/i8041.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims/i8048.src/i8041.cc b/src/sims/i8048.src/i8041.cc
index 6dd3504..58714d8 100644
--- a/src/sims/i8048.src/i8041.cc
+++ b/src/sims/i8048.src/i8041.cc
@@ -133,6 +133,9 @@ int
 cl_i8041::OUTDBBA(MP)
 {
   cpu->cfg_write(i8041cpu_out, rA);
+  u8_t s= cpu->cfg_read(i8041cpu_status);
+  s|= stat_obf;
+  cpu->cfg_write(i8041cpu_status, s);
   return resGO;
 }
 
-- 
2.43.0


From 04c99b0c5ab963e0c583974e151abf773324e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 136/212] fix: i8041: EN FLAGS has effect on port 2 at once

---
 src/sims/i8048.src/i8041.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/i8041.cc b/src/sims/i8048.src/i8041.cc
index 58714d8..7d448b7 100644
--- a/src/sims/i8048.src/i8041.cc
+++ b/src/sims/i8048.src/i8041.cc
@@ -162,7 +162,7 @@ cl_i8041::MOVSTSA(MP)
 int
 cl_i8041::ENFLAGS(MP)
 {
-  cpu->cfg_set(i8041cpu_enflags, 1);
+  cpu->cfg_write(i8041cpu_enflags, 1);
   return resGO;
 }
 
-- 
2.43.0


From d105c10da3d4a1af1722a42f8a608141cc02ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 137/212] fix: i8041: write of the host into the input buffer
 sets IBF

---
 src/sims/i8048.src/i8041.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8048.src/i8041.cc b/src/sims/i8048.src/i8041.cc
index 7d448b7..7ea08df 100644
--- a/src/sims/i8048.src/i8041.cc
+++ b/src/sims/i8048.src/i8041.cc
@@ -250,7 +250,7 @@ cl_i8041_cpu::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
 	  cell->set(*val&= 0xff);
 	  u->flagF1= 0;
 	  u8_t stat= cfg_read(i8041cpu_status);
-	  stat&= ~stat_ibf;
+	  stat|= stat_ibf;
 	  cfg_write(i8041cpu_status, stat);
 	}
       break;
@@ -260,7 +260,7 @@ cl_i8041_cpu::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
 	  cell->set(*val&= 0xff);
 	  u->flagF1= 1;
 	  u8_t stat= cfg_read(i8041cpu_status);
-	  stat&= ~stat_ibf;
+	  stat|= stat_ibf;
 	  cfg_write(i8041cpu_status, stat);
 	}
       break;
-- 
2.43.0


From 596df8f3c9daf49bfe2949f9f7ed634df1c72177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:55 +0000
Subject: [PATCH 138/212] fix: interrupt source is maskable by default

---
 src/core/sim.src/itsrc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/itsrc.cc b/src/core/sim.src/itsrc.cc
index a1e76bf..793ab09 100644
--- a/src/core/sim.src/itsrc.cc
+++ b/src/core/sim.src/itsrc.cc
@@ -77,6 +77,7 @@ cl_it_src::cl_it_src(cl_uc  *Iuc,
     set_name("unknown");
   active= true;
   parent= NULL;
+  nmi= false;
 }
 
 cl_it_src::~cl_it_src(void) {}
-- 
2.43.0


From 34c9f18dbd834c962d68564ac1b7537467164fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 139/212] fix: interrupt selection: highest priority request is
 accepted, not blocked by finished or lower services

---
 src/core/motorola.src/m6800cl.h  |  4 ++-
 src/core/sim.src/itsrccl.h       | 13 +++++++++
 src/core/sim.src/uc.cc           | 50 ++++++++++++++++++++------------
 src/core/sim.src/uccl.h          |  3 ++
 src/sims/m6809.src/m6809cl.h     |  5 +++-
 src/sims/mos6502.src/mos6502cl.h |  4 ++-
 src/sims/stm8.src/stm8.cc        |  8 +++++
 src/sims/stm8.src/stm8cl.h       |  2 ++
 8 files changed, 67 insertions(+), 22 deletions(-)

diff --git a/src/core/motorola.src/m6800cl.h b/src/core/motorola.src/m6800cl.h
index c899a13..47acc0f 100644
--- a/src/core/motorola.src/m6800cl.h
+++ b/src/core/motorola.src/m6800cl.h
@@ -196,7 +196,9 @@ public:
   virtual void print_regs(class cl_console_base *con);
 
   virtual int exec_inst(void);
-  virtual int priority_of(uchar nuof_it) { return nuof_it; }
+  virtual int priority_of(uchar nuof_it) { return irq_priority(nuof_it); }
+  // there are no interrupt levels, mask bits decide
+  virtual int priority_current(class it_level *il) { return 0; }
   virtual int accept_it(class it_level *il);
   virtual bool it_enabled(void) { return true; }
   virtual void push_regs(bool inst_part);
diff --git a/src/core/sim.src/itsrccl.h b/src/core/sim.src/itsrccl.h
index 34940dc..6c20e99 100644
--- a/src/core/sim.src/itsrccl.h
+++ b/src/core/sim.src/itsrccl.h
@@ -110,6 +110,19 @@ enum irq_nr {
   irq_swi= 5
 };
 
+/* Order of acceptance: software interrupt is an executed instruction */
+inline int irq_priority(uchar nr)
+{
+  switch (nr)
+    {
+    case irq_brk: case irq_swi: return 5;
+    case irq_nmi: return 4;
+    case irq_firq: return 3;
+    case irq_irq: return 2;
+    }
+  return 1;
+}
+
 
 /* IRQ list */
 
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 7e0c24a..3b63b4e 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3471,12 +3471,24 @@ cl_uc::inst_unknown(t_mem code)
  * Interrupt processing
  */
 
+/* Only requests above of this priority can be accepted */
+
+int
+cl_uc::priority_current(class it_level *il)
+{
+  if (il &&
+      il->level >= 0)
+    return il->level;
+  return priority_main();
+}
+
 int
 cl_uc::do_interrupt(void)
 {
-  int i;
+  int i, best_pr= 0;
   bool is_en= it_enabled();
   class it_level *il= (class it_level *)(it_levels->top()), *IL= 0;
+  class cl_it_src *best= NULL;
 
   irq= false;
   for (i= 0; i < it_sources->count; i++)
@@ -3504,31 +3516,31 @@ cl_uc::do_interrupt(void)
       if (A && E && P)
 	{
 	  int pr= priority_of(is->nuof);
-	  int ap;
 	  irq= true;
-	  if (il &&
-	      il->level >= 0)
-	    {
-	      ap= il->level;
-	    }
-	  else
+	  if (priority_current(il) >= pr)
 	    {
-	      ap= priority_main();
+	      continue;
 	    }
-	  if (ap >= pr)
+	  if (!best ||
+	      (pr > best_pr) ||
+	      ((pr == best_pr) && irq_before(is, best)))
 	    {
-	      continue;
+	      best= is;
+	      best_pr= pr;
 	    }
-	  if (state == stIDLE)
-	    state= stGO;
-	  is->clear();
-	  sim->app->get_commander()->
-	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-			  ticks->get_rtime(), ticks->get_ticks(), object_name(is), PC);
-	  IL= new it_level(pr, is->addr, PC, is);
-	  return(accept_it(IL));
 	}
     }
+  if (best)
+    {
+      if (state == stIDLE)
+	state= stGO;
+      best->clear();
+      sim->app->get_commander()->
+	debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
+	      ticks->get_rtime(), ticks->get_ticks(), object_name(best), PC);
+      IL= new it_level(best_pr, best->addr, PC, best);
+      return(accept_it(IL));
+    }
   return resGO;
 }
 
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 44ba2bf..b7519e5 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -461,6 +461,9 @@ public:
   virtual int do_interrupt(void);
   virtual int priority_of(uchar nuof_it) {return(0);}
   virtual int priority_main() { return 0; }
+  virtual int priority_current(class it_level *il);
+  virtual bool irq_before(class cl_it_src *a, class cl_it_src *b)
+  { return false; }
   virtual int accept_it(class it_level *il);
   virtual bool it_enabled(void) { return false; }
   virtual class cl_it_src *search_it_src(int cid_or_nr);
diff --git a/src/sims/m6809.src/m6809cl.h b/src/sims/m6809.src/m6809cl.h
index a699000..d5754b6 100644
--- a/src/sims/m6809.src/m6809cl.h
+++ b/src/sims/m6809.src/m6809cl.h
@@ -29,6 +29,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #define M6809CL_HEADER
 
 #include "uccl.h"
+#include "itsrccl.h"
 #include "memcl.h"
 
 
@@ -152,7 +153,9 @@ public:
   virtual int inst_page2(t_mem code);
     
   virtual int exec_inst(void);
-  virtual int priority_of(uchar nuof_it) { return nuof_it; }
+  virtual int priority_of(uchar nuof_it) { return irq_priority(nuof_it); }
+  // there are no interrupt levels, mask bits decide
+  virtual int priority_current(class it_level *il) { return 0; }
   virtual int accept_it(class it_level *il);
   virtual bool it_enabled(void) { return true; }
 };
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 5374e42..191645f 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -143,7 +143,9 @@ public:
   virtual int longest_inst(void) { return 3; }
 
   virtual int exec_inst(void);
-  virtual int priority_of(uchar nuof_it) { return nuof_it; }
+  virtual int priority_of(uchar nuof_it) { return irq_priority(nuof_it); }
+  // there are no interrupt levels, mask bits decide
+  virtual int priority_current(class it_level *il) { return 0; }
   virtual int accept_it(class it_level *il);
   virtual bool it_enabled(void);
   virtual void push_addr(t_addr a); // tick(2)
diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index e85a519..4ace9df 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1940,6 +1940,14 @@ cl_stm8::priority_main(void)
   return levels[i1+i0];
 }
 
+/* Lower vector number wins when software priorities are the same */
+
+bool
+cl_stm8::irq_before(class cl_it_src *a, class cl_it_src *b)
+{
+  return a->nuof < b->nuof;
+}
+
 
 /*
  * Accept an interrupt
diff --git a/src/sims/stm8.src/stm8cl.h b/src/sims/stm8.src/stm8cl.h
index 89d75a0..42012f1 100644
--- a/src/sims/stm8.src/stm8cl.h
+++ b/src/sims/stm8.src/stm8cl.h
@@ -110,6 +110,8 @@ public:
 
   virtual int  do_interrupt(void);
   virtual int  priority_of(uchar nuof_it);
+  virtual int  priority_current(class it_level *il) { return priority_main(); }
+  virtual bool irq_before(class cl_it_src *a, class cl_it_src *b);
   virtual int  priority_main(void);
   virtual int  accept_it(class it_level *il);
   virtual bool it_enabled(void);
-- 
2.43.0


From e25a1dedbdd9e55f562ed6ddaa2b1aa1448e4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 140/212] fix: interrupt line of peripherals is released when
 their flag is cleared

---
 src/core/sim.src/itsrc.cc  | 12 +++++++++++-
 src/core/sim.src/itsrccl.h |  3 +++
 src/core/sim.src/uc.cc     |  5 +++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/itsrc.cc b/src/core/sim.src/itsrc.cc
index 793ab09..312153e 100644
--- a/src/core/sim.src/itsrc.cc
+++ b/src/core/sim.src/itsrc.cc
@@ -78,6 +78,7 @@ cl_it_src::cl_it_src(cl_uc  *Iuc,
   active= true;
   parent= NULL;
   nmi= false;
+  line= passed= false;
 }
 
 cl_it_src::~cl_it_src(void) {}
@@ -121,9 +122,16 @@ cl_it_src::pass_over(void)
     {
       if (pending() && enabled())
 	{
-	  parent->request();
+	  if (!parent->is_nmi())
+	    // level: parent is requested as long as the slave is
+	    parent->line= true;
+	  else if (!passed)
+	    parent->request();
+	  passed= true;
 	  clear();
 	}
+      else
+	passed= false;
     }
 }
 
@@ -141,6 +149,8 @@ cl_it_src::enabled(void)
 bool
 cl_it_src::pending(void)
 {
+  if (line)
+    return true;
   if (!src_cell)
     return false;
   t_mem s= src_cell->get();
diff --git a/src/core/sim.src/itsrccl.h b/src/core/sim.src/itsrccl.h
index 6c20e99..80486ac 100644
--- a/src/core/sim.src/itsrccl.h
+++ b/src/core/sim.src/itsrccl.h
@@ -49,6 +49,8 @@ class cl_it_src: public /*cl_base*/cl_hw
   class cl_memory_cell *ie_cell;
   class cl_memory_cell *src_cell;
   class cl_it_src *parent; // slave will pass request to this
+  bool line;		   // some slaves are requesting now
+  bool passed;		   // actual request is passed to parent
 public:
   int poll_priority;
   int    nuof;	   // Number of IT to check priority
@@ -89,6 +91,7 @@ public:
   virtual void activate(void);
   virtual void deactivate(void);
   virtual void pass_over(void);
+  virtual void release_line(void) { line= false; }
   
   virtual bool enabled(void);
   virtual bool pending(void);
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 3b63b4e..34d1cd3 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3491,6 +3491,11 @@ cl_uc::do_interrupt(void)
   class cl_it_src *best= NULL;
 
   irq= false;
+  for (i= 0; i < it_sources->count; i++)
+    {
+      class cl_it_src *is= (class cl_it_src *)(it_sources->at(i));
+      is->release_line();
+    }
   for (i= 0; i < it_sources->count; i++)
     {
       class cl_it_src *is= (class cl_it_src *)(it_sources->at(i));
-- 
2.43.0


From 3a19c550b18d0c3f94422f5b526696e08778510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 141/212] fix: mos6502, m6809: NMI request is cleared when it
 is accepted

---
 src/sims/m6809.src/m6809.cc     | 2 +-
 src/sims/mos6502.src/mos6502.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index ca2f918..bda7689 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -179,7 +179,7 @@ cl_m6809::mk_hw_elements(void)
 			 h->cfg_cell(cpu_nmi_en), 1,
 			 h->cfg_cell(cpu_nmi), 1,
 			 NMI_AT,
-			 false,
+			 true,
 			 true,
 			 "Non-maskable interrupt request",
 			 0);
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index f289b92..ba75611 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -202,7 +202,7 @@ cl_mos6502::mk_hw_elements(void)
 			 irq_nmi,
 			 h->cfg_cell(m65_nmi_en), 1,
 			 h->cfg_cell(m65_nmi), 1,
-			 NMI_AT, false, true,
+			 NMI_AT, true, true,
 			 "Non-maskable interrupt request",
 			 0);
   src_nmi->set_cid('n');
-- 
2.43.0


From a9bb77232387f2d83c24278e695dc97608f2b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 142/212] fix: m6809: F flag masks FIRQ

---
 src/sims/m6809.src/m6809.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index bda7689..3f8aa6c 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -171,6 +171,7 @@ cl_m6809::mk_hw_elements(void)
 			  "Fast interrupt request",
 			  0);
   src_firq->set_cid('f');
+  src_firq->set_ie_value(0);
   src_firq->init();
   it_sources->add(src_firq);
   
-- 
2.43.0


From fe1e23a1ddd25550f43600366eb1df84b9fedead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 143/212] fix: m6800: NMI is not maskable

---
 src/core/motorola.src/m6800.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 44b3add..7454519 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -183,6 +183,7 @@ cl_m6800::mk_hw_elements(void)
 			 "Non-maskable interrupt request",
 			 0);
   src_nmi->set_cid('n');
+  src_nmi->set_nmi(true);
   src_nmi->init();
   it_sources->add(src_nmi);
   
-- 
2.43.0


From 40de240c73d94fba5fb3ac720715884938099ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:43 +0000
Subject: [PATCH 144/212] fix: m6809: load of S enables NMI

---
 src/sims/m6809.src/m6809.cc  | 17 +++++++++++++----
 src/sims/m6809.src/m6809cl.h |  2 ++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 3f8aa6c..d5785ec 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -86,7 +86,7 @@ cl_m6809::reset(void)
   cl_uc::reset();
 
   reg.DP= 0;
-  en_nmi= false;
+  set_en_nmi(false);
   cwai= false;
   reg.CC= flagI | flagF;
   PC= rom->read(0xfffe)*256 + rom->read(0xffff);
@@ -144,7 +144,7 @@ cl_m6809::mk_hw_elements(void)
   add_hw(h= new cl_dreg(this, 0, "dreg"));
   h->init();
   
-  add_hw(h= new cl_m6809_irq(this));
+  add_hw(irq_hw= h= new cl_m6809_irq(this));
   h->init();
 
   src_irq= new cl_it_src(this,
@@ -1061,7 +1061,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     {
       *acc= r;
       if (acc == &reg.S)
-	en_nmi= true;
+	set_en_nmi(true);
     }
   
   return resGO;
@@ -1112,7 +1112,7 @@ cl_m6809::inst_ld16(t_mem code, u16_t *acc, u16_t op)
   SET_S(op&0x8000);
 
   if (acc == &reg.S)
-    en_nmi= true;
+    set_en_nmi(true);
   
   return resGO;
 }
@@ -2410,6 +2410,15 @@ cl_m6809::exec_inst(void)
   return resGO;
 }
 
+/* NMI is not recognized until first load of S */
+
+void
+cl_m6809::set_en_nmi(bool en)
+{
+  en_nmi= en;
+  irq_hw->cfg_read(cpu_nmi_en);
+}
+
 int
 cl_m6809::accept_it(class it_level *il)
 {
diff --git a/src/sims/m6809.src/m6809cl.h b/src/sims/m6809.src/m6809cl.h
index d5754b6..5ad6348 100644
--- a/src/sims/m6809.src/m6809cl.h
+++ b/src/sims/m6809.src/m6809cl.h
@@ -86,6 +86,7 @@ public:
   class cl_address_space *regs16;
   struct reg_t reg;
   bool en_nmi;
+  class cl_hw *irq_hw;
   bool cwai;
 public:
   class cl_address_space *rom;
@@ -156,6 +157,7 @@ public:
   virtual int priority_of(uchar nuof_it) { return irq_priority(nuof_it); }
   // there are no interrupt levels, mask bits decide
   virtual int priority_current(class it_level *il) { return 0; }
+  virtual void set_en_nmi(bool en);
   virtual int accept_it(class it_level *il);
   virtual bool it_enabled(void) { return true; }
 };
-- 
2.43.0


From 4bde1c919011fa915f870ea5ee60f0b783fb195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:43 +0000
Subject: [PATCH 145/212] fix: m6809: masked interrupt ends SYNC

---
 src/sims/m6809.src/m6809.cc  | 12 ++++++++++++
 src/sims/m6809.src/m6809cl.h |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index d5785ec..da612ee 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2419,6 +2419,18 @@ cl_m6809::set_en_nmi(bool en)
   irq_hw->cfg_read(cpu_nmi_en);
 }
 
+/* SYNC stops waiting even if the requested interrupt is masked */
+
+int
+cl_m6809::do_interrupt(void)
+{
+  int res= cl_uc::do_interrupt();
+  if ((state == stIDLE) && !cwai &&
+      (src_irq->pending() || src_firq->pending()))
+    state= stGO;
+  return res;
+}
+
 int
 cl_m6809::accept_it(class it_level *il)
 {
diff --git a/src/sims/m6809.src/m6809cl.h b/src/sims/m6809.src/m6809cl.h
index 5ad6348..a8f8a40 100644
--- a/src/sims/m6809.src/m6809cl.h
+++ b/src/sims/m6809.src/m6809cl.h
@@ -158,6 +158,7 @@ public:
   // there are no interrupt levels, mask bits decide
   virtual int priority_current(class it_level *il) { return 0; }
   virtual void set_en_nmi(bool en);
+  virtual int do_interrupt(void);
   virtual int accept_it(class it_level *il);
   virtual bool it_enabled(void) { return true; }
 };
-- 
2.43.0


From 3a7685c09eb6f62382e692e66487653dad8c3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:43 +0000
Subject: [PATCH 146/212] fix: i8048: overflow of the timer requests the
 interrupt

---
 src/sims/i8048.src/timer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/timer.cc b/src/sims/i8048.src/timer.cc
index 402cafc..1f44d85 100644
--- a/src/sims/i8048.src/timer.cc
+++ b/src/sims/i8048.src/timer.cc
@@ -143,7 +143,10 @@ cl_timer::do_overflow(void)
 {
   cfg_write(tcfg_tflag, 1);
   if (int_enabled)
-    cfg_write(tcfg_ovflag, 1);
+    {
+      cfg_write(tcfg_ovflag, 1);
+      cfg_write(tcfg_irq, 1);
+    }
 }
 
 const char *
-- 
2.43.0


From 33385614db1590a2a0c7bd2835b24931667ebd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:38 +0000
Subject: [PATCH 147/212] fix: i8048: bit 11 of the PC is held at 0 during
 interrupt service

---
 src/sims/i8048.src/branch.cc | 4 ++--
 src/sims/i8048.src/i8048.cc  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 82ff97e..b0e2ac6 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -34,7 +34,7 @@ cl_i8020::jmp(MP)
   u16_t a;
   a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   PC= a;
   return resGO;
 }
@@ -44,7 +44,7 @@ CL2::call(MP)
 {
   u16_t a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   push(false);
   PC= a;
   return resGO;
diff --git a/src/sims/i8048.src/i8048.cc b/src/sims/i8048.src/i8048.cc
index ea55699..4d1c7c1 100644
--- a/src/sims/i8048.src/i8048.cc
+++ b/src/sims/i8048.src/i8048.cc
@@ -266,7 +266,7 @@ cl_i8048::call(MP)
 {
   u16_t a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   push(true);
   PC= a;
   return resGO;
-- 
2.43.0


From f448ef6a73c115f6ccfe9cbff19de4ff00be4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 148/212] fix: PDK: FPPEN never becomes 0, which hung the
 simulator

---
 src/sims/pdk.src/pdk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 57ece93..11d46a0 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -863,8 +863,6 @@ cl_pdk::set_fppen(u8_t val)
 {
   int i, n;
   u8_t m;
-  if (val == 0)
-    val= 1;
   for (i=0, m=1, n=0; i<8; i++, m<<=1)
     {
       if (fpps[i] == NULL)
@@ -872,6 +870,8 @@ cl_pdk::set_fppen(u8_t val)
       else
 	n++;
     }
+  if (val == 0)
+    val= 1;
   single= n==1;
   return val;
 }
-- 
2.43.0


From 356700b255fbdceb6ba97f10526a9455916975e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 149/212] fix: PDK: PC follows the active FPP

---
 src/sims/pdk.src/pdk.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 11d46a0..a99a62d 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -882,8 +882,8 @@ cl_pdk::set_act(u8_t val)
   u8_t r= 0;
   if (val < nuof_fpp)
     r= val;
-  cPC.decode(&(fpps[act]->PC));
-  PC= fpps[act]->PC;
+  cPC.decode(&(fpps[r]->PC));
+  PC= fpps[r]->PC;
   return r;
 }
 
@@ -968,9 +968,9 @@ cl_pdk::exec_inst(void)
 	  do
 	    act= (act+1)%nuof_fpp;
 	  while (!(rFPPEN & (1<<act)));
-	  cPC.decode(&(fpps[act]->PC));
 	}
     }
+  cPC.decode(&(fpps[act]->PC));
   PC= fpps[act]->PC;
   return ret;
 }
-- 
2.43.0


From 39d784e57c15277782d576e65e74f4d3b5db99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 150/212] fix: PDK: the program counter covers the whole
 program memory

---
 src/sims/pdk.src/pdk.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index a99a62d..0f1548f 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -60,7 +60,7 @@ cl_fpp::cl_fpp(int aid, class cl_pdk *the_puc, class cl_sim *asim):
 {
   id= aid;
   puc= the_puc;
-  PCmask= 0xfff;
+  PCmask= 0x1fff;
 }
 
 
-- 
2.43.0


From c8779d851471e96bce202d1a7c6fe990841b1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 151/212] fix: PDK13-15: RET, PCADD, IDXM and taken skips are 2
 cycles

---
 src/sims/pdk.src/pdk13.cc | 25 +++++++++++++++----------
 src/sims/pdk.src/pdk14.cc | 27 +++++++++++++++------------
 src/sims/pdk.src/pdk15.cc | 27 +++++++++++++++------------
 src/sims/pdk.src/pdkcl.h  |  1 +
 4 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/src/sims/pdk.src/pdk13.cc b/src/sims/pdk.src/pdk13.cc
index a896d50..6fd4adc 100644
--- a/src/sims/pdk.src/pdk13.cc
+++ b/src/sims/pdk.src/pdk13.cc
@@ -65,10 +65,12 @@ cl_fpp13::execute(unsigned int code)
     cA.W(code & 0xFF);
     cSP->W(rSP-2);
     PC = get_mem(rSP) | (get_mem(rSP + 1) << 8);
+    tick(1);
   } else if (code == 0x003A) {
     // ret
     cSP->W(rSP-2);
     PC = get_mem(rSP) | (get_mem(rSP + 1) << 8);
+    tick(1);
   } else if (CODE_MASK(0x1700, 0xFF)) {
     // mov a, k
     cA.W(code);
@@ -94,9 +96,11 @@ cl_fpp13::execute(unsigned int code)
   } else if ((CODE_MASK(0x0E1, 0x1E))) {
     // idxm a, m
     cA.W(get_mem(get_mem(code & 0x1E)));
+    tick(1);
   } else if ((CODE_MASK(0x0E0, 0x1E))) {
     // idxm m, a
     wr8(get_mem(code & 0x1E), rA);
+    tick(1);
   } else if (CODE_MASK(0x09C0, 0x3F)) {
     // xch m
     int mem = get_mem(code & 0x3F);
@@ -297,57 +301,57 @@ cl_fpp13::execute(unsigned int code)
     // t0sn io, k
     int n = (code & 0xE0) >> 5;
     if (!(get_io(code & 0x1F) & (1 << n)))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x0200, 0xEF)) {
     // t0sn m, k
     int n = (code & 0xE0) >> 5;
     if (!(get_mem(code & 0x0F) & (1 << n)))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x0D00, 0xFF)) {
     // t1sn io, k
     int n = (code & 0xE0) >> 5;
     if (get_io(code & 0x1F) & (1 << n))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x0210, 0xEF)) {
     // t1sn m, k
     int n = (code & 0xE0) >> 5;
     if (get_mem(code & 0x0F) & (1 << n))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x1200, 0xFF)) {
     // ceqsn a, k
     sub_to(rA, code & 0xFF);
     if (rA == (code & 0xFF))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x0B80, 0x3F)) {
     // ceqsn a, m
     int addr = code & 0x3F;
     sub_to(rA, get_mem(addr));
     if (rA == get_mem(addr))
-      ++PC;
+      skip();
   } else if (code == 0x0012) {
     // izsn
     rA = add_to(rA, 1);
     if (!rA)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x0880, 0x3F)) {
     // izsn m
     const int addr = code & 0x3F;
     int result = add_to(get_mem(addr), 1);
     wr8(addr, result);
     if (!result)
-      ++PC;
+      skip();
   } else if (code == 0x0013) {
     // dzsn
     cA.W(sub_to(rA, 1));
     if (!rA)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x08C0, 0x3F)) {
     // dzsn m
     const int addr = code & 0x3F;
     int result = sub_to(get_mem(addr), 1);
     wr8(addr, result);
     if (!result)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x1C00, 0x3FF)) {
     // call k
     push(PC);
@@ -364,6 +368,7 @@ cl_fpp13::execute(unsigned int code)
   } else if (code == 0x0017) {
     // pcadd
     PC += rA - 1;
+    tick(1);
   } else if (code == 0x0038) {
     // TODO: engint
   } else if (code == 0x0039) {
diff --git a/src/sims/pdk.src/pdk14.cc b/src/sims/pdk.src/pdk14.cc
index 7ec811c..df0b3da 100644
--- a/src/sims/pdk.src/pdk14.cc
+++ b/src/sims/pdk.src/pdk14.cc
@@ -65,6 +65,7 @@ cl_fpp14::execute(unsigned int code)
     cA.W(code);
     cSP->W(rSP - 2);
     PC = get_mem(rSP) | (get_mem(rSP + 1) << 8);
+    tick(1);
   } else if (code == 0x007A) {
     // ret
     /*write_result = store_io(0x2, rSP - 2);
@@ -72,6 +73,7 @@ cl_fpp14::execute(unsigned int code)
     PC = get_mem(rSP) | (get_mem(rSP + 1) << 8);*/
     cSP->W(rSP-2);
     PC= rd16(rSP);
+    tick(1);
   } else if (CODE_MASK(0x2F00, 0xFF)) {
     // mov a, k
     cA.W(code/* & 0xFF*/);
@@ -307,70 +309,70 @@ cl_fpp14::execute(unsigned int code)
     // t0sn io, k
     int n = (code & 0x1C0) >> 6;
     if (!(get_io(code & 0x3F) & (1 << n)))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x2000, 0x1FF)) {
     // t0sn m, k
     int n = (code & 0x1C0) >> 6;
     if (!(get_mem(code & 0x3F) & (1 << n)))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x1A00, 0x1FF)) {
     // t1sn io, k
     int n = (code & 0x1C0) >> 6;
     if (get_io(code & 0x3F) & (1 << n))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x2200, 0x1FF)) {
     // t1sn m, k
     int n = (code & 0x1C0) >> 6;
     if (get_mem(code & 0x3F) & (1 << n))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x2A00, 0xFF)) {
     // ceqsn a, k
     sub_to(rA, code & 0xFF);
     if (rA == (code & 0xFF))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x1700, 0x7F)) {
     // ceqsn a, m
     int addr = code & 0x7F;
     u8_t value= get_mem(addr); 
     sub_to(rA, value);
     if (rA == value)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x2B00, 0xFF)) {
     // cneqsn a, k
     sub_to(rA, code & 0xFF);
     if (rA != (code & 0xFF))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x1780, 0x7F)) {
     // cneqsn a, m
     int addr = code & 0x7F;
     u8_t value= get_mem(addr); 
     sub_to(rA, value);
     if (rA != value)
-      ++PC;
+      skip();
   } else if (code == 0x0062) {
     // izsn
     cA.W(add_to(rA, 1));
     if (!rA)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x1100, 0x7F)) {
     // izsn m
     const int addr = code & 0x7F;
     int result = add_to(get_mem(addr), 1);
     wr8(addr, result);
     if (!result)
-      ++PC;
+      skip();
   } else if (code == 0x0063) {
     // dzsn
     cA.W(sub_to(rA, 1));
     if (!rA)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x1180, 0x7F)) {
     // dzsn m
     const int addr = code & 0x7F;
     int result = sub_to(get_mem(addr), 1);
     wr8(addr, result);
     if (!result)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x3800, 0x7FF)) {
     // call k
     ram->write(rSP, PC);
@@ -402,6 +404,7 @@ cl_fpp14::execute(unsigned int code)
   } else if (code == 0x0067) {
     // pcadd
     PC += rA - 1;
+    tick(1);
   } else if (code == 0x0078) {
     // TODO: engint
   } else if (code == 0x0079) {
diff --git a/src/sims/pdk.src/pdk15.cc b/src/sims/pdk.src/pdk15.cc
index 4bfa185..c214a2c 100644
--- a/src/sims/pdk.src/pdk15.cc
+++ b/src/sims/pdk.src/pdk15.cc
@@ -65,6 +65,7 @@ cl_fpp15::execute(unsigned int code)
     cA.W(code);
     cSP->W(rSP - 2);
     PC = get_mem(rSP) | (get_mem(rSP + 1) << 8);
+    tick(1);
   } else if (code == 0x007A) {
     // ret
     /*write_result = store_io(0x2, rSP - 2);
@@ -72,6 +73,7 @@ cl_fpp15::execute(unsigned int code)
     PC = get_mem(rSP) | (get_mem(rSP + 1) << 8);*/
     cSP->W(rSP-2);
     PC= rd16(rSP);
+    tick(1);
   } else if (CODE_MASK(0x5700, 0xFF)) {
     // mov a, k
     cA.W(code/* & 0xFF*/);
@@ -307,70 +309,70 @@ cl_fpp15::execute(unsigned int code)
     // t0sn io, k
     int n = (code & 0x380) >> 7;
     if (!(get_io(code & 0x7F) & (1 << n)))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x4000, 0x3FF)) {
     // t0sn m, k
     int n = (code & 0x380) >> 7;
     if (!(get_mem(code & 0x7F) & (1 << n)))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x3400, 0x3FF)) {
     // t1sn io, k
     int n = (code & 0x380) >> 7;
     if (get_io(code & 0x7F) & (1 << n))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x4400, 0x3FF)) {
     // t1sn m, k
     int n = (code & 0x380) >> 7;
     if (get_mem(code & 0x7F) & (1 << n))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x5200, 0xFF)) {
     // ceqsn a, k
     sub_to(rA, code & 0xFF);
     if (rA == (code & 0xFF))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x2E00, 0xFF)) {
     // ceqsn a, m
     int addr = code & 0xFF;
     u8_t value= get_mem(addr); 
     sub_to(rA, value);
     if (rA == value)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x5300, 0xFF)) {
     // cneqsn a, k
     sub_to(rA, code & 0xFF);
     if (rA != (code & 0xFF))
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x2F00, 0xFF)) {
     // cneqsn a, m
     int addr = code & 0xFF;
     u8_t value= get_mem(addr);
     sub_to(rA, value);
     if (rA != value)
-      ++PC;
+      skip();
   } else if (code == 0x0062) {
     // izsn
     cA.W(add_to(rA, 1));
     if (!rA)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x2200, 0xFF)) {
     // izsn m
     const int addr = code & 0xFF;
     int result = add_to(get_mem(addr), 1);
     ram->write(addr, result);
     if (!result)
-      ++PC;
+      skip();
   } else if (code == 0x0063) {
     // dzsn
     cA.W(sub_to(rA, 1));
     if (!rA)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x2300, 0xFF)) {
     // dzsn m
     const int addr = code & 0xFF;
     int result = sub_to(get_mem(addr), 1);
     ram->write(addr, result);
     if (!result)
-      ++PC;
+      skip();
   } else if (CODE_MASK(0x7000, 0xFFF)) {
     // call k
     ram->write(rSP, PC);
@@ -402,6 +404,7 @@ cl_fpp15::execute(unsigned int code)
   } else if (code == 0x0067) {
     // pcadd
     PC += rA - 1;
+    tick(1);
   } else if (code == 0x0078) {
     // TODO: engint
   } else if (code == 0x0079) {
diff --git a/src/sims/pdk.src/pdkcl.h b/src/sims/pdk.src/pdkcl.h
index eb3e687..d880261 100644
--- a/src/sims/pdk.src/pdkcl.h
+++ b/src/sims/pdk.src/pdkcl.h
@@ -183,6 +183,7 @@ public:
   u8_t get_io(t_addr addr) { return sfr->read(addr); }
   int store_io(t_addr addr, int value) { sfr->write(addr, value); return resGO; }
   void store_flag(flag n, int value);
+  void skip(void) { ++PC; tick(1); }
   /*
   int execute_pdk13(unsigned int code);
   int execute_pdk14(unsigned int code);
-- 
2.43.0


From b6fba38373b2c3d74291ffc45defa358c16f024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 152/212] fix: PDK16: t0sn M,n and t1sn M,n test the selected
 bit

---
 src/sims/pdk.src/pdk16.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index ccaa93b..f728f2a 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -627,13 +627,13 @@ cl_fpp16::execute(unsigned int code)
     case 0x8000: // t0sn M,n
       u8= rd8(code & 0x1ff);
       n= (code>>9)&7;
-      if (!(u8 & (1>>n)))
+      if (!(u8 & (1<<n)))
 	PC++;
       return resGO;
     case 0x9000: // t1sn M,n
       u8= rd8(code & 0x1ff);
       n= (code>>9)&7;
-      if (u8 & (1>>n))
+      if (u8 & (1<<n))
 	PC++;
       return resGO;
     }
-- 
2.43.0


From c329ee9f4cabcc02248d06b2267be902b995032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:40 +0000
Subject: [PATCH 153/212] fix: PDK16: idxm M,a stores where the pointer points

---
 src/sims/pdk.src/pdk16.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index f728f2a..3b9ce60 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -351,7 +351,7 @@ cl_fpp16::execute(unsigned int code)
 	{
 	  // idxm M,a
 	  u= rd16(code & 0x1fe);
-	  wr8(rd8(u), rA);
+	  wr8(u, rA);
 	}
       tick(1);
       return resGO;
-- 
2.43.0


From 99bbc98b464055d39d3a7d2338691295cf635558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:40 +0000
Subject: [PATCH 154/212] fix: PDK16: ldt16 and stt16 are not reported as
 unimplemented

---
 src/sims/pdk.src/pdk16.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index 3b9ce60..c6643a4 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -329,7 +329,6 @@ cl_fpp16::execute(unsigned int code)
 	  if (puc)
 	    puc->t16->cnt= rd16(code & 0x01fe);
 	}
-      return resNOT_DONE;
       return resGO;
     case 0x6e00: // xch M
       u= code & 0x1ff;
-- 
2.43.0


From d98a106b0f30f3d8564fb26033f38090cdddd173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:40 +0000
Subject: [PATCH 155/212] fix: PDK16: popping a word does not rely on the order
 of evaluation

---
 src/sims/pdk.src/pdk16.cc | 6 +++---
 src/sims/pdk.src/pdkcl.h  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index c6643a4..aeec37d 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -187,7 +187,7 @@ cl_fpp16::execute(unsigned int code)
       tick(1);
       return resGO;
     case 0x0060: // popw pcN
-      u= pop()*256+pop();
+      u= pop16();
       if (puc)
 	puc->set_pc(code&0xf, u);
       return resGO;
@@ -267,7 +267,7 @@ cl_fpp16::execute(unsigned int code)
       return resGO;
     case 0x0f00: // ret k
       cA.W(code);
-      PC= pop()*256 + pop();
+      PC= pop16();
       return resGO;
     }
 
@@ -296,7 +296,7 @@ cl_fpp16::execute(unsigned int code)
       else
 	{
 	  // popw word
-	  u= pop()*256+pop();
+	  u= pop16();
 	  wr16(code&0x1fe, u);
 	}
       tick(1);
diff --git a/src/sims/pdk.src/pdkcl.h b/src/sims/pdk.src/pdkcl.h
index d880261..8c8588d 100644
--- a/src/sims/pdk.src/pdkcl.h
+++ b/src/sims/pdk.src/pdkcl.h
@@ -159,6 +159,7 @@ public:
   virtual void push(u16_t word);
   virtual void pushlh(u8_t low, u8_t high);
   virtual u8_t pop(void) { cSP->W(rSP-1); vc.rd++; return ram->read(rSP); }
+  u16_t pop16(void) { u16_t h= pop(); return h*256 + pop(); }
   virtual void stack_check_overflow(void);
   virtual void stack_check_overflow(t_addr sp_before);
 
-- 
2.43.0


From fb4ac4b16e2b9b0c88b0f7bbebece1dd83288b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:14 +0000
Subject: [PATCH 156/212] fix: PicoBlaze: the stack holds whole return
 addresses

---
 src/sims/pblaze.src/pblaze.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index e5dc5f0..bd29771 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -226,7 +226,7 @@ cl_pblaze::make_memories(void)
   ad->activate(0);
 
   // stack chip
-  chip = new cl_chip8("stack_chip", stack_size, 12);
+  chip = new cl_chip16("stack_chip", stack_size, 12);
   chip->init();
   memchips->add(chip);
   ad= new cl_address_decoder(as = address_space(MEM_STACK_ID), chip, 0, stack_size-1, 0);
-- 
2.43.0


From f899aa43132ad628325e043335459834b69393ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:14 +0000
Subject: [PATCH 157/212] fix: PicoBlaze: OUTPUTK sends the constant of the
 instruction

---
 src/sims/pblaze.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index d1e7d85..09a6fcf 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -571,7 +571,7 @@ cl_pblaze::inst_outputk(uint code, int operands)
   u8_t port;
 
   if (operands == CONSTANT_PORT) {
-    constant = (code & 0x00ff0) >> 8;
+    constant = (code & 0x00ff0) >> 4;
     port = code & 0x0000f;
   }
   else {
-- 
2.43.0


From bef93a85a466f5f9f450e415e9d14c7521b2364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:14 +0000
Subject: [PATCH 158/212] fix: PicoBlaze: STAR stores in the register the
 instruction names

---
 src/sims/pblaze.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 09a6fcf..b5ec954 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -785,7 +785,7 @@ cl_pblaze::inst_star(uint code, int operands)
 
   if (operands == REG_REG) {
     // getting register from inactive register bank
-    unsigned char reg_code = (code & 0x000f0) >> 4;
+    unsigned char reg_code = (code & 0x00f00) >> 8;
     if (active_regbank == REGISTER_BANK_A)
       reg_code += 0x10;
 
-- 
2.43.0


From 59c3ecb90549d73c59c033222b9e62c3b966a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:14 +0000
Subject: [PATCH 159/212] fix: PicoBlaze: KCPSM6 CALL C and CALL Z disassemble
 as themselves

---
 src/sims/pblaze.src/glob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/pblaze.src/glob.cc b/src/sims/pblaze.src/glob.cc
index 37f8a04..3c6d329 100644
--- a/src/sims/pblaze.src/glob.cc
+++ b/src/sims/pblaze.src/glob.cc
@@ -132,9 +132,9 @@ struct dis_entry_pblaze disass_pblaze6[]= {
   { 0x03000, 0x3f000, ' ', 1, "AND %r,%k", AND,     REG_CONSTANT },
 
   { 0x20000, 0x3f000, ' ', 1, "CALL %A", CALL,          ADDRESS12 },
-  { 0x30000, 0x3f000, ' ', 1, "CALL C %A", CALL_Z,        ADDRESS12 },
+  { 0x30000, 0x3f000, ' ', 1, "CALL Z %A", CALL_Z,        ADDRESS12 },
   { 0x34000, 0x3f000, ' ', 1, "CALL NZ %A", CALL_NZ,       ADDRESS12 },
-  { 0x38000, 0x3f000, ' ', 1, "CALL Z %A", CALL_C,        ADDRESS12 },
+  { 0x38000, 0x3f000, ' ', 1, "CALL C %A", CALL_C,        ADDRESS12 },
   { 0x3c000, 0x3f000, ' ', 1, "CALL NC %A", CALL_NC,       ADDRESS12 },
   { 0x24000, 0x3f00f, ' ', 1, "CALL@ (%r, %s)", CALL_AT,       REG_REG },
 
-- 
2.43.0


From 0726436a4855e23dfa89a3dc1ad0e0ac30599110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:14 +0000
Subject: [PATCH 160/212] fix: PicoBlaze: KCPSM6 restarts at 0 when the stack
 overflows or underflows

---
 src/sims/pblaze.src/inst.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index b5ec954..7e20fd3 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -243,8 +243,10 @@ cl_pblaze::inst_call(uint code, int inst, int operands)
     if (stack_push(PC-1)) {
       fprintf(stderr, "Call stack overflow.\n");
 
-      if (type->type == CPU_PBLAZE_6)
+      if (type->type == CPU_PBLAZE_6) {
         reset();
+        return (resGO);
+      }
       //return (resERROR);
     }
     PC = address;
@@ -489,8 +491,10 @@ cl_pblaze::inst_load_return(uint code, int operands)
     if (stack_pop(&addr)) {
       fprintf(stderr, "Call stack underflow.\n");
 
-      if (type->type == CPU_PBLAZE_6)
+      if (type->type == CPU_PBLAZE_6) {
         reset();
+        return (resGO);
+      }
 
       //return (resERROR);
     }
@@ -637,8 +641,10 @@ cl_pblaze::inst_return(uint code, int inst)
     if (stack_pop(&addr)) {
       fprintf(stderr, "Call stack underflow.\n");
 
-      if (type->type == CPU_PBLAZE_6)
+      if (type->type == CPU_PBLAZE_6) {
         reset();
+        return (resGO);
+      }
 
       //return (resERROR);
     }
@@ -655,8 +661,10 @@ cl_pblaze::inst_returni(bool interrupt_enable)
   if (stack_pop(&addr)) {
     fprintf(stderr, "Call stack underflow.\n");
 
-    if (type->type == CPU_PBLAZE_6)
+    if (type->type == CPU_PBLAZE_6) {
       reset();
+      return (resGO);
+    }
 
     //return (resERROR);
   }
-- 
2.43.0


From 89c56023d631ac772124343b8659ff9fa2310240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:14 +0000
Subject: [PATCH 161/212] fix: PicoBlaze: return to address 0 after a call at
 the last address; the KCPSM6 PC is 12 bits

---
 src/sims/pblaze.src/inst.cc   | 6 +++---
 src/sims/pblaze.src/pblaze.cc | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 7e20fd3..6639b65 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -498,7 +498,7 @@ cl_pblaze::inst_load_return(uint code, int operands)
 
       //return (resERROR);
     }
-    PC = addr+1;
+    PC = (addr+1) & PCmask;
   }
   else {
     fprintf(stderr, "LOAD&RETURN: Unsupported operand type\n");
@@ -648,7 +648,7 @@ cl_pblaze::inst_return(uint code, int inst)
 
       //return (resERROR);
     }
-    PC = addr+1;
+    PC = (addr+1) & PCmask;
   }
 
   return(resGO);
@@ -668,7 +668,7 @@ cl_pblaze::inst_returni(bool interrupt_enable)
 
     //return (resERROR);
   }
-  PC = addr+1;
+  PC = (addr+1) & PCmask;
 
   FLAGS_SET_C(interrupt->preserved_flag_c);
   FLAGS_SET_Z(interrupt->preserved_flag_z);
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index bd29771..0a967a3 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -1347,6 +1347,8 @@ cl_pblaze::init_uc_parameters(void)
   else if (type->type == CPU_PBLAZE_6)
     stack_size = 30;
 
+  PCmask = (type->type == CPU_PBLAZE_6) ? 0xfff : 0x3ff;
+
   // ram size
   cl_option * opt = sim->app->options->get_option("pblaze_ram_size");
   if (opt != NULL) {
-- 
2.43.0


From 6b714d112600e9e88bfd65d979600efb7fcc7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:14 +0000
Subject: [PATCH 162/212] fix: PicoBlaze: address bits above the size of the
 scratch pad are ignored

---
 src/sims/pblaze.src/inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 6639b65..3f260d0 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -317,10 +317,10 @@ cl_pblaze::inst_fetch(uint code, int operands)
     addr = get_constant(code) & 0x3f; // only bits 5..0 are used for addressing
   }
   else if (operands == REG_ADDRESS8) {
-    addr = get_constant(code);
+    addr = get_constant(code) & (ram_size - 1);
   }
   else if (operands == REG_REG) {
-    addr = get_register(code, false)->get();
+    addr = get_register(code, false)->get() & (ram_size - 1);
   }
   else {
     fprintf(stderr, "FETCH: Unsupported operand type\n");
@@ -822,10 +822,10 @@ cl_pblaze::inst_store(uint code, int operands)
     addr = get_constant(code) & 0x3f; // only bits 5..0 are used for addressing
   }
   else if (operands == REG_ADDRESS8) {
-    addr = get_constant(code);
+    addr = get_constant(code) & (ram_size - 1);
   }
   else if (operands == REG_REG) {
-    addr = get_register(code, false)->get();
+    addr = get_register(code, false)->get() & (ram_size - 1);
   }
   else {
     fprintf(stderr, "STORE: Unsupported operand type\n");
-- 
2.43.0


From c92f49d4fa9c78c43157be0271acbf2172c0b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:14 +0000
Subject: [PATCH 163/212] fix: PicoBlaze: an interrupt preserves the register
 bank, RETURNI restores it

---
 src/sims/pblaze.src/inst.cc       | 3 ++-
 src/sims/pblaze.src/interrupt.cc  | 3 +++
 src/sims/pblaze.src/interruptcl.h | 1 +
 src/sims/pblaze.src/pblaze.cc     | 1 +
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 3f260d0..cbff216 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -240,7 +240,7 @@ cl_pblaze::inst_call(uint code, int inst, int operands)
   }
 
   if (jump) {
-    if (stack_push(PC-1)) {
+    if (stack_push((PC-1) & PCmask)) {
       fprintf(stderr, "Call stack overflow.\n");
 
       if (type->type == CPU_PBLAZE_6) {
@@ -672,6 +672,7 @@ cl_pblaze::inst_returni(bool interrupt_enable)
 
   FLAGS_SET_C(interrupt->preserved_flag_c);
   FLAGS_SET_Z(interrupt->preserved_flag_z);
+  active_regbank = interrupt->preserved_regbank;
   FLAGS_SET_I(interrupt_enable);
 
   return (resGO);
diff --git a/src/sims/pblaze.src/interrupt.cc b/src/sims/pblaze.src/interrupt.cc
index 6cc2840..b3942eb 100644
--- a/src/sims/pblaze.src/interrupt.cc
+++ b/src/sims/pblaze.src/interrupt.cc
@@ -37,6 +37,9 @@ int
 cl_interrupt::init(void)
 {
   interrupt_request = false;
+  preserved_flag_c = false;
+  preserved_flag_z = false;
+  preserved_regbank = REGISTER_BANK_A;
   return(0);
 }
 
diff --git a/src/sims/pblaze.src/interruptcl.h b/src/sims/pblaze.src/interruptcl.h
index 37c0659..d61a1d3 100644
--- a/src/sims/pblaze.src/interruptcl.h
+++ b/src/sims/pblaze.src/interruptcl.h
@@ -35,6 +35,7 @@ public:
   
   bool preserved_flag_c;
   bool preserved_flag_z;
+  int preserved_regbank;
 public:
   cl_interrupt(class cl_uc *auc);
   virtual int init(void);
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index 0a967a3..f8c3ff3 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -898,6 +898,7 @@ cl_pblaze::do_interrupt(void)
     //stack_push(PC);
     interrupt->preserved_flag_c = FLAGS_GET_C;
     interrupt->preserved_flag_z = FLAGS_GET_Z;
+    interrupt->preserved_regbank = active_regbank;
     FLAGS_SET_I(0);
     interrupt->interrupt_request = false;
 
-- 
2.43.0


From db652e05761b5799487e14b427f7c7ceae2e7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:27 +0000
Subject: [PATCH 164/212] fix: Intel hex dump above 64k uses extended address
 records

---
 src/core/sim.src/mem.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 894dbab..104a59b 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -641,21 +641,30 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
   if (bpl > 32)
     bpl= 32;
   t_addr a= ads->start;
+  t_addr ext= 0;
   sum= 0;
   start_line= a;
   while (a <= ads->stop)
     {
       a++;
       if (((a % bpl) == 0) ||
+	  ((a & 0xffff) == 0) ||
 	  (a > ads->stop))
 	{
 	  // dump line
 	  if ((a - start_line) > 0)
 	    {
 	      unsigned char c;	      
+	      if ((start_line >> 16) != ext)
+		{
+		  // extended address of the following records
+		  ext= start_line >> 16;
+		  sum= 2 + 4 + ((ext >> 8) & 0xff) + (ext & 0xff);
+		  f->prntf(":02000004%04X%02X\r\n", AU(ext & 0xffff), (0x100 - (sum & 0xff)) & 0xff);
+		}
 	      sum= 0;
 	      c= a-start_line;
-	      f->prntf(":%02X%04X00", c, start_line);
+	      f->prntf(":%02X%04X00", c, AU(start_line & 0xffff));
 	      sum+= c;
 	      c= int(start_line >> 8) & 0xff;
 	      sum+= c;
-- 
2.43.0


From 0fb7940dd34b68f7f048f5c9a2bd233d8e520db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:27 +0000
Subject: [PATCH 165/212] fix: Intel hex dump of wide memories keeps whole
 words

---
 src/core/sim.src/mem.cc | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 104a59b..0067cbd 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -642,40 +642,46 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
     bpl= 32;
   t_addr a= ads->start;
   t_addr ext= 0;
+  t_addr bpw= (width + 7) / 8; // bytes of a word, low byte first
   sum= 0;
   start_line= a;
   while (a <= ads->stop)
     {
       a++;
       if (((a % bpl) == 0) ||
-	  ((a & 0xffff) == 0) ||
+	  (((a * bpw) >> 16) != ((start_line * bpw) >> 16)) ||
 	  (a > ads->stop))
 	{
 	  // dump line
 	  if ((a - start_line) > 0)
 	    {
 	      unsigned char c;	      
-	      if ((start_line >> 16) != ext)
+	      t_addr line= start_line * bpw;
+	      if ((line >> 16) != ext)
 		{
 		  // extended address of the following records
-		  ext= start_line >> 16;
+		  ext= line >> 16;
 		  sum= 2 + 4 + ((ext >> 8) & 0xff) + (ext & 0xff);
 		  f->prntf(":02000004%04X%02X\r\n", AU(ext & 0xffff), (0x100 - (sum & 0xff)) & 0xff);
 		}
 	      sum= 0;
-	      c= a-start_line;
-	      f->prntf(":%02X%04X00", c, AU(start_line & 0xffff));
+	      c= (a-start_line) * bpw;
+	      f->prntf(":%02X%04X00", c, AU(line & 0xffff));
 	      sum+= c;
-	      c= int(start_line >> 8) & 0xff;
+	      c= int(line >> 8) & 0xff;
 	      sum+= c;
-	      c= start_line & 0xff;
+	      c= line & 0xff;
 	      sum+= c;
-	      unsigned int i;
+	      unsigned int i, j;
 	      for (i= 0; i < a-start_line; i++)
 		{
-		  c= read(start_line + i);
-		  f->prntf("%02X", c);
-		  sum+= c;
+		  t_mem d= read(start_line + i);
+		  for (j= 0; j < bpw; j++)
+		    {
+		      c= (d >> (8*j)) & 0xff;
+		      f->prntf("%02X", c);
+		      sum+= c;
+		    }
 		}
 	      sum&= 0xff;
 	      unsigned char chk= 0x100 - sum;
-- 
2.43.0


From d85ed84ac8405d7edcaab7f26660572e3631c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:43 +0000
Subject: [PATCH 166/212] fix: dump without addresses does not skip the last
 cell of the memory

---
 src/core/sim.src/mem.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 0067cbd..6ef577e 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -511,7 +511,7 @@ cl_memory::dump(int smart,
         break;
     }
 
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return(dump_finished);
@@ -568,7 +568,7 @@ cl_memory::dump_s(//t_addr start, t_addr stop,
     f->write_str("\n");
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
@@ -601,7 +601,7 @@ cl_memory::dump_b(//t_addr start, t_addr stop,
     }
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
@@ -693,7 +693,7 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
   f->write_str(":00000001FF\r\n");
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
-- 
2.43.0


From f5c09c2ec0cb859e778c768477e76e70b2ee9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:26 +0000
Subject: [PATCH 167/212] fix: dump downwards to address 0 shows the cells

---
 src/core/sim.src/mem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 6ef577e..25722c3 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -257,7 +257,7 @@ cl_memory::dump(int smart,
     {
       step= -1;
       ads->stop--;
-      if (ads->start - bpl < ads->stop)
+      if (ads->start - ads->stop < (t_addr)bpl)
         bpl= ads->start - ads->stop;
     }
 
@@ -276,7 +276,7 @@ cl_memory::dump(int smart,
 
   int state = 0;
 
-  while ((step>0)?(ads->start < ads->stop):(ads->start > ads->stop))
+  while ((step>0)?(ads->start < ads->stop):(ads->start != ads->stop))
     {
       if (smart && step > 0 && this == uc->rom)
         {
-- 
2.43.0


From 6b77d84f90620d80cc1d09609c868763a7872e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 168/212] fix: characters above 127 in strings of data are not
 sign extended

---
 src/core/cmd.src/command.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/command.cc b/src/core/cmd.src/command.cc
index e37f092..1ebbda0 100644
--- a/src/core/cmd.src/command.cc
+++ b/src/core/cmd.src/command.cc
@@ -695,7 +695,7 @@ cl_cmdline::set_data_list(class cl_cmd_arg *parm, int *iparm)
 	    }
 	  for (j= 0; j < l; j++)
 	    {
-	      array[len]= s[j];
+	      array[len]= (unsigned char)(s[j]);
 	      len++;
 	    }
 	  //if (s)
-- 
2.43.0


From 3042a9c4ef63cd7f55563974f54c4aa92a54a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 169/212] fix: set memory of all the 32 bits of a cell as a bit
 field

---
 src/core/cmd.src/cmd_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_set.cc b/src/core/cmd.src/cmd_set.cc
index 6280b02..d829383 100644
--- a/src/core/cmd.src/cmd_set.cc
+++ b/src/core/cmd.src/cmd_set.cc
@@ -107,7 +107,7 @@ COMMAND_DO_WORK_UC(cl_set_mem_cmd)
             con->dd_printf("Error: excess data for bit(s)\n");
           else
             {
-              t_mem mask= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+              t_mem mask= (((u64_t)1 << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
               mem->write(start, (mem->get(start) & (~mask)) | ((array[0] << bitnr_low) & mask));
               uc->check_errors();
               mem->dump(start, bitnr_high, bitnr_low, con);
-- 
2.43.0


From 515091b7f5cb6a75dd1ad269e96b480e33067536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 170/212] fix: set memory shows the cells it has set and no
 more

---
 src/core/cmd.src/cmd_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_set.cc b/src/core/cmd.src/cmd_set.cc
index d829383..b2549f1 100644
--- a/src/core/cmd.src/cmd_set.cc
+++ b/src/core/cmd.src/cmd_set.cc
@@ -125,7 +125,7 @@ COMMAND_DO_WORK_UC(cl_set_mem_cmd)
                i++, addr++)
             mem->write(addr, array[i]);
           uc->check_errors();
-	  ads.stop= addr;
+	  ads.stop= addr-1;
           mem->dump(/*start, start+len-1*/&ads, 8, con);
         }
     }
-- 
2.43.0


From 3586231460ce2b5024201c9585dea71898b8e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 171/212] fix: search in a memory which does not start at
 address 0

---
 src/core/sim.src/mem.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 25722c3..74c69ee 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -703,21 +703,23 @@ bool
 cl_memory::search_next(bool case_sensitive,
 		       t_mem *array, int len, t_addr *addr)
 {
-  t_addr a;
+  t_addr a, sa= get_start_address(), end;
   int i;
   bool found;
 
-  if (addr == NULL)
-    a= 0;
+  if ((addr == NULL) ||
+      (*addr < sa))
+    a= sa;
   else
     a= *addr;
+  end= sa+size;
 
-  if (a+len > size)
+  if (a+len > end)
     return(false);
 
   found= false;
   while (!found &&
-	 a+len <= size)
+	 a+len <= end)
     {
       bool match= true;
       for (i= 0; i < len && match; i++)
-- 
2.43.0


From 3bf9a94dbfaf2b96a8fed4a7a30214a316b152be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 172/212] fix: case insensitive search in memories wider than 8
 bits

---
 src/core/sim.src/mem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 74c69ee..a88e433 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -729,9 +729,9 @@ cl_memory::search_next(bool case_sensitive,
 	  d2= array[i];
 	  if (!case_sensitive)
 	    {
-	      if (/*d1 < 128*/isalpha(d1))
+	      if ((d1 < 128) && isalpha(d1))
 		d1= toupper(d1);
-	      if (/*d2 < 128*/isalpha(d2))
+	      if ((d2 < 128) && isalpha(d2))
 		d2= toupper(d2);
 	    }
 	  match= d1 == d2;
-- 
2.43.0


From bffd0113a9cab85e228438cf844b3d5307b8ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:09 +0000
Subject: [PATCH 173/212] fix: replacing a name does not revive an outdated
 length of the longest name

---
 src/core/sim.src/var.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/var.cc b/src/core/sim.src/var.cc
index fd54633..ad73935 100644
--- a/src/core/sim.src/var.cc
+++ b/src/core/sim.src/var.cc
@@ -361,6 +361,7 @@ class cl_cvar *
 cl_var_list::add(class cl_cvar *item)
 {
   const char *name = item->get_name();
+  bool known= max_name_len_known;
 
   if (!del(name))
     {
@@ -371,7 +372,8 @@ cl_var_list::add(class cl_cvar *item)
   else
     {
       // We're replacing with the same name so we still know the max length really
-      max_name_len_known = true;
+      // (if it was known before)
+      max_name_len_known = known;
     }
 
   by_name.add(item);
-- 
2.43.0


From 892c4774cff86ed5858cccf36b0134f7176fdd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:38 +0000
Subject: [PATCH 174/212] fix: time of a new timer starts at zero

---
 src/core/sim.src/uc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 34d1cd3..d8e30d3 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -73,6 +73,7 @@ cl_ticker::cl_ticker(int adir, enum ticker_type atype, const char *aname, bool a
   dir= adir;
   type= atype;
   ticks= 0;
+  rtime= 0;
   run = true;
   set_name(aname);
   user= auser;
-- 
2.43.0


From b3b65c2a12006d60127886906bb8efafb20f240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:38 +0000
Subject: [PATCH 175/212] fix: timers can be set to more clocks than fit in an
 int

---
 src/core/sim.src/uccl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index b7519e5..c638004 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -72,7 +72,7 @@ public:
   unsigned long get_ticks(void) { return ticks; }
   double get_rtime(void) { return rtime; }
 
-  void set(int nr, double time) { ticks = nr; rtime = time; }
+  void set(unsigned long nr, double time) { ticks = nr; rtime = time; }
 
   void tick(int nr, double time);
   void dump(int nr, class cl_console_base *con);
-- 
2.43.0


From 4149ba7f0349e6ff090c872cddd1192bc228755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:53 +0000
Subject: [PATCH 176/212] fix: MCS-51 serial port in mode 2 sends a bit in 64
 or 32 clocks

---
 src/sims/s51.src/serial.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/serial.cc b/src/sims/s51.src/serial.cc
index 7c4e3c7..9263592 100644
--- a/src/sims/s51.src/serial.cc
+++ b/src/sims/s51.src/serial.cc
@@ -180,7 +180,7 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	  break;
 	case 2:
 	  _bits= 11;
-	  _divby= _bmSMOD?16:32;
+	  _divby= _bmSMOD?32:64;
 	  break;
 	case 3:
 	  _bits= 11;
@@ -203,7 +203,9 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	  _divby= _bmSMOD?16:32;
 	  break;
 	  }*/
-      if (_mode)
+      if (_mode == 2)
+	_divby= _bmSMOD?32:64;
+      else if (_mode)
 	_divby= _bmSMOD?16:32;
     }
   else
-- 
2.43.0


From 581dc307c4a2a72ed9828a2bdc92e1c7b86d2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:29 +0000
Subject: [PATCH 177/212] fix: MCS-51 serial port counts the overflows of the
 timer selected by RCLK and TCLK only

---
 src/sims/s51.src/serial.cc  | 82 ++++++++++++++++++++-----------------
 src/sims/s51.src/serialcl.h |  6 ++-
 2 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/src/sims/s51.src/serial.cc b/src/sims/s51.src/serial.cc
index 9263592..6789440 100644
--- a/src/sims/s51.src/serial.cc
+++ b/src/sims/s51.src/serial.cc
@@ -84,7 +84,7 @@ cl_serial::init(void)
       t2_baud= d & (bmRCLK | bmTCLK);
     }
   else
-    t2_baud= false;
+    t2_baud= 0;
   /*
   chars pn(id_string);
   pn.append("%d_", id);
@@ -172,41 +172,21 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	{
 	case 0:
 	  _bits= 8;
-	  _divby= 12;
 	  break;
 	case 1:
 	  _bits= 10;
-	  _divby= _bmSMOD?16:32;
 	  break;
 	case 2:
 	  _bits= 11;
-	  _divby= _bmSMOD?32:64;
 	  break;
 	case 3:
 	  _bits= 11;
-	  _divby= _bmSMOD?16:32;
 	  break;
 	}
     }
   else if (cell == pcon)
     {
       _bmSMOD= *val & bmSMOD;
-      /*switch (_mode)
-	{
-	case 1:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	case 2:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	case 3:
-	  _divby= _bmSMOD?16:32;
-	  break;
-	  }*/
-      if (_mode == 2)
-	_divby= _bmSMOD?32:64;
-      else if (_mode)
-	_divby= _bmSMOD?16:32;
     }
   else
     conf(cell, val);
@@ -240,47 +220,66 @@ cl_serial::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
   return cell->get();
 }
 
+int
+cl_serial::tr_divby(void)
+{
+  switch (_mode)
+    {
+    case 0: return 12;
+    case 2: return _bmSMOD?32:64;
+    }
+  return (t2_baud & bmTCLK)?16:(_bmSMOD?16:32);
+}
+
+int
+cl_serial::rec_divby(void)
+{
+  switch (_mode)
+    {
+    case 0: return 12;
+    case 2: return _bmSMOD?32:64;
+    }
+  return (t2_baud & bmRCLK)?16:(_bmSMOD?16:32);
+}
+
 int
 cl_serial::serial_bit_cnt(void)
 {
-  //int divby= 12;
+  int divby;
   int *tr_src= 0, *rec_src= 0;
 
   switch (_mode)
     {
     case 0:
-      //divby  = 12;
       tr_src = &s_tr_tick;
       rec_src= &s_rec_tick;
       break;
     case 1:
     case 3:
-      //divby  = (/*pcon->get()&bmSMOD*/_bmSMOD)?16:32;
       tr_src = &s_tr_t1;
       rec_src= &s_rec_t1;
       break;
     case 2:
-      //divby  = (/*pcon->get()&bmSMOD*/_bmSMOD)?16:32;
       tr_src = &s_tr_tick;
       rec_src= &s_rec_tick;
       break;
     }
-  if (t2_baud)
-    _divby= 16;
   if (s_sending)
     {
-      while (*tr_src >= _divby)
+      divby= tr_divby();
+      while (*tr_src >= divby)
 	{
-	  (*tr_src)-= _divby;
+	  (*tr_src)-= divby;
 	  if (s_tr_bit < _bits)
 	    s_tr_bit++;
 	}
     }
   if (s_receiving)
     {
-      while (*rec_src >= _divby)
+      divby= rec_divby();
+      while (*rec_src >= divby)
 	{
-	  (*rec_src)-= _divby;
+	  (*rec_src)-= divby;
 	  s_rec_bit++;
 	}
     }
@@ -370,8 +369,10 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       if (where->id == 1)
 	{
-	  s_rec_t1++;
-	  s_tr_t1++;
+	  if (!(t2_baud & bmRCLK))
+	    s_rec_t1++;
+	  if (!(t2_baud & bmTCLK))
+	    s_tr_t1++;
 	}
       if (where->id == 2 /*&& there_is_t2*/)
 	{
@@ -379,15 +380,20 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
 	    {
 	    case EV_T2_MODE_CHANGED:
 	      {
-		if (!t2_baud)
-		  s_rec_t1= s_tr_t1= 0;
 		t_mem *d= (t_mem *)params;
-		t2_baud= *d & (bmRCLK | bmTCLK);
+		u8_t changed= t2_baud ^ (*d & (bmRCLK | bmTCLK));
+		if (changed & bmRCLK)
+		  s_rec_t1= 0;
+		if (changed & bmTCLK)
+		  s_tr_t1= 0;
+		t2_baud^= changed;
 		break;
 	      }
 	    case EV_OVERFLOW:
-	      s_rec_t1++;
-	      s_tr_t1++;
+	      if (t2_baud & bmRCLK)
+		s_rec_t1++;
+	      if (t2_baud & bmTCLK)
+		s_tr_t1++;
 	      break;
 	    default: break;
 	    }
diff --git a/src/sims/s51.src/serialcl.h b/src/sims/s51.src/serialcl.h
index 9eea9bc..6794f46 100644
--- a/src/sims/s51.src/serialcl.h
+++ b/src/sims/s51.src/serialcl.h
@@ -45,7 +45,8 @@ class cl_serial: public cl_serial_hw
 {
 protected:
   class cl_address_space *sfr, *bas;
-  bool there_is_t2, t2_baud;
+  bool there_is_t2;
+  u8_t t2_baud;		// RCLK and TCLK bits of T2CON
   class cl_memory_cell *sbuf, *pcon, *scon, *scon_bits[8];
   int   s_rec_t1;	// T1 overflows for receiving
   int   s_tr_t1;	// T1 overflows for sending
@@ -55,7 +56,8 @@ protected:
   uchar _bmREN;
   uchar _bmSMOD;
   uchar _bits;
-  uchar _divby;
+  int   tr_divby(void);	// Divider of bit time for sending
+  int   rec_divby(void);// and receiving
 public:
   cl_serial(class cl_uc *auc);
   virtual ~cl_serial(void);
-- 
2.43.0


From b83e32c79291b79f46385e4fa593fae176e010e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:10 +0000
Subject: [PATCH 178/212] fix: Z80 reset clears I and R

---
 src/sims/z80.src/z80.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 84c2840..acc8f1b 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -108,6 +108,8 @@ cl_z80::reset(void)
   cl_uc::reset();
   regs.SP= 0xffff;
   regs.AF= 0xffff;
+  regs.iv= 0;
+  regs.R= 0;
   IFF1= false;
   IFF2= false;
   imode= 0;
-- 
2.43.0


From 00986ba3615bdc15fcde231ec6f9040c86bba804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:10 +0000
Subject: [PATCH 179/212] fix: reset of 6800 and 68HC11 masks interrupts

---
 src/core/motorola.src/m6800.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 7454519..3d71f7e 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -135,7 +135,7 @@ cl_m6800::reset(void)
 {
   cl_uc::reset();
 
-  cCC.W(0xc0);
+  cCC.W(0xd0);
   PC= read_addr(rom, RESET_AT);
   tick(6);
 }
-- 
2.43.0


From 951edb6438933d6dded50a7b6482dfdbd5c878d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:10 +0000
Subject: [PATCH 180/212] fix: reset of ST7 masks interrupts

---
 src/sims/st7.src/st7.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 2c1294c..647042c 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -96,7 +96,7 @@ cl_st7::reset(void)
   regs.A = 0;
   regs.X = 0;
   regs.Y = 0;
-  regs.CC = 0x00;
+  regs.CC = BIT_I;
   regs.VECTOR = 1;
 
 }
-- 
2.43.0


From 4472e0bb76d7dbdd50dac7c75adc06f2f61a424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:21 +0000
Subject: [PATCH 181/212] fix: reset of AVR clears the status register

---
 src/sims/avr.src/avr.cc  | 7 +++++++
 src/sims/avr.src/avrcl.h | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 9e2f8a9..466c239 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -139,6 +139,13 @@ cl_avr::init(void)
   return(0);
 }
 
+void
+cl_avr::reset(void)
+{
+  cl_uc::reset();
+  ram->write(SREG, 0);
+}
+
 const char *
 cl_avr::id_string(void)
 {
diff --git a/src/sims/avr.src/avrcl.h b/src/sims/avr.src/avrcl.h
index f78f9b5..1774ed5 100644
--- a/src/sims/avr.src/avrcl.h
+++ b/src/sims/avr.src/avrcl.h
@@ -46,6 +46,7 @@ public:
 public:
   cl_avr(class cl_sim *asim);
   virtual int init(void);
+  virtual void reset(void);
   virtual const char *id_string(void);
 
   virtual void mk_hw_elements(void);
-- 
2.43.0


From 6d39009bac6d3f2be73f295e9c8d67cf7c44be50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:50 +0000
Subject: [PATCH 182/212] fix: reset of 8052 ends count down mode of timer 2

---
 src/sims/s51.src/uc52.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/s51.src/uc52.cc b/src/sims/s51.src/uc52.cc
index e27fd86..91bbc47 100644
--- a/src/sims/s51.src/uc52.cc
+++ b/src/sims/s51.src/uc52.cc
@@ -128,6 +128,7 @@ cl_uc52::clear_sfr(void)
 {
   cl_51core::clear_sfr();
   sfr->write(T2CON, 0);
+  sfr->write(T2MOD, 0);
   sfr->write(TH2, 0);
   sfr->write(TL2, 0);
   sfr->write(RCAP2L, 0);
-- 
2.43.0


From 8fea87c83691614bd1613bcdebe10612a806f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:39 +0000
Subject: [PATCH 183/212] fix: reset of 68HC08 masks interrupts

---
 src/sims/m68hc08.src/m68hc08.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/m68hc08.cc b/src/sims/m68hc08.src/m68hc08.cc
index f2f6860..f5bb04c 100644
--- a/src/sims/m68hc08.src/m68hc08.cc
+++ b/src/sims/m68hc08.src/m68hc08.cc
@@ -99,7 +99,7 @@ cl_hc08::reset(void)
   regs.A = 0;
   regs.X = 0;
   regs.H = 0;
-  regs.P = 0x60;
+  regs.P = 0x68;
   regs.VECTOR = 1;
 
   PC= rom->get(0xfffe)*256 + rom->get(0xffff);
-- 
2.43.0


From c81954324ccf602cb82b5fe1188339e1209687f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:53 +0000
Subject: [PATCH 184/212] fix: run bit of PCA is bit 6 of CCON

---
 src/sims/s51.src/pca.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/s51.src/pca.cc b/src/sims/s51.src/pca.cc
index 04b11c4..81d38c1 100644
--- a/src/sims/s51.src/pca.cc
+++ b/src/sims/s51.src/pca.cc
@@ -73,7 +73,7 @@ cl_pca::init(void)
   cell_cl= sfr->get_cell(CL);//use_cell(sfr, CL);
   cell_ch= sfr->get_cell(CH);//use_cell(sfr, CH);
   cl_address_space *bas= uc->address_space("bits");
-  cell_cr= register_cell(bas, 0xda);
+  cell_cr= register_cell(bas, 0xde);
   return(0);
 }
 
-- 
2.43.0


From 41c36fd101e9830c58ef82cf6987250e4117f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:00 +0000
Subject: [PATCH 185/212] fix: PCA modules compare at every count, and capture
 at the edges of their input

---
 src/sims/s51.src/pca.cc  | 46 ++++++++++++++++++++++------------------
 src/sims/s51.src/pcacl.h |  3 ++-
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/sims/s51.src/pca.cc b/src/sims/s51.src/pca.cc
index 81d38c1..ff95d98 100644
--- a/src/sims/s51.src/pca.cc
+++ b/src/sims/s51.src/pca.cc
@@ -196,7 +196,10 @@ int
 cl_pca::tick(int cycles)
 {
   int ret= resGO;
+  int i;
 
+  for (i= 0; i < 5; i++)
+    do_pca_capture(i);
   if (!bit_CR)
     return(resGO);
   if (uc->state == stIDLE &&
@@ -240,36 +243,27 @@ cl_pca::do_pca_counter(int cycles)
 	    {
 	      // CH,CL overflow
 	      cell_ccon->set(cell_ccon->get() | bmCF);
-	      do_pca_module(0);
-	      do_pca_module(1);
-	      do_pca_module(2);
-	      do_pca_module(3);
-	      do_pca_module(4);
 	    }
 	}
+      int nr;
+      for (nr= 0; nr < 5; nr++)
+	if (do_pca_module(nr))
+	  return; // watchdog reset
     }
 }
 
 void
-cl_pca::do_pca_module(int nr)
+cl_pca::do_pca_capture(int nr)
 {
-  uchar bmCEX[5]= {bmCEX0, bmCEX1, bmCEX2, bmCEX3, bmCEX4};
   uchar bmCCF[5]= {bmCCF0, bmCCF1, bmCCF2, bmCCF3, bmCCF4};
-  //uint p1= sfr->get(P1);
-
   bool capture= false;
   if ((ccapm[nr] & bmCAPP) &&
       cex_pos[nr])
-    {
-      capture= true;
-      cex_pos[nr]= false;
-    }
+    capture= true;
   if ((ccapm[nr] & bmCAPN) &&
       cex_neg[nr])
-    {
-      capture= true;
-      cex_pos[nr]= false;
-    }
+    capture= true;
+  cex_pos[nr]= cex_neg[nr]= false;
   if (capture)
     {
       // Capture
@@ -277,6 +271,14 @@ cl_pca::do_pca_module(int nr)
       cell_ccaph[nr]->set(cell_ch->get());
       cell_ccon->set(cell_ccon->get() | bmCCF[nr]);
     }
+}
+
+bool
+cl_pca::do_pca_module(int nr)
+{
+  uchar bmCEX[5]= {bmCEX0, bmCEX1, bmCEX2, bmCEX3, bmCEX4};
+  uchar bmCCF[5]= {bmCCF0, bmCCF1, bmCCF2, bmCCF3, bmCCF4};
+  //uint p1= sfr->get(P1);
 
   if (ccapm[nr] & bmECOM)
     {
@@ -288,10 +290,11 @@ cl_pca::do_pca_module(int nr)
 	  if (nr == 4 &&
 	      (bit_WDTE))
 	    {
-	      reset();
-	      return;
+	      uc->reset();
+	      return true;
 	    }
-	  cell_ccon->set(cell_ccon->get() | bmCCF[nr]);
+	  if (ccapm[nr] & bmMAT)
+	    cell_ccon->set(cell_ccon->get() | bmCCF[nr]);
 	  if (ccapm[nr] & bmTOG)
 	    {
 	      // Toggle
@@ -302,11 +305,12 @@ cl_pca::do_pca_module(int nr)
 	{
 	  // PWM
 	  if (cell_cl->get() < cell_ccapl[nr]->get())
-	    sfr->set(P1, sfr->get(P1) | bmCEX[nr]);
+	    sfr->set(P1, sfr->get(P1) & ~bmCEX[nr]);
 	  else
 	    sfr->set(P1, sfr->get(P1) | bmCEX[nr]);
 	}
     }
+  return false;
 }
 
 void
diff --git a/src/sims/s51.src/pcacl.h b/src/sims/s51.src/pcacl.h
index e6947ee..2ffecfa 100644
--- a/src/sims/s51.src/pcacl.h
+++ b/src/sims/s51.src/pcacl.h
@@ -61,7 +61,8 @@ public:
 
   virtual int tick(int cycles);
   virtual void do_pca_counter(int cycles);
-  virtual void do_pca_module(int nr);
+  virtual void do_pca_capture(int nr);
+  virtual bool do_pca_module(int nr);
   virtual void reset(void);
   virtual void happen(class cl_hw *where, enum hw_event he, void *params);
  
-- 
2.43.0


From 8755435d1ed5826ba6dfdade5399841cfd560d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:00 +0000
Subject: [PATCH 186/212] fix: PCA notices writes to compare registers

---
 src/sims/s51.src/pca.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/pca.cc b/src/sims/s51.src/pca.cc
index ff95d98..98191b1 100644
--- a/src/sims/s51.src/pca.cc
+++ b/src/sims/s51.src/pca.cc
@@ -66,8 +66,8 @@ cl_pca::init(void)
   cell_ccon= register_cell(sfr, CCON);
   for (i= 0; i < 5; i++)
     {
-      cell_ccapl[i]= sfr->get_cell(CCAPL[i]);//use_cell(sfr, CCAPL[i]);
-      cell_ccaph[i]= sfr->get_cell(CCAPH[i]);//use_cell(sfr, CCAPH[i]);
+      cell_ccapl[i]= register_cell(sfr, CCAPL[i]);
+      cell_ccaph[i]= register_cell(sfr, CCAPH[i]);
       cell_ccapm[i]= register_cell(sfr, CCAPM[i]);
     }
   cell_cl= sfr->get_cell(CL);//use_cell(sfr, CL);
-- 
2.43.0


From 41328b06af49e5b82fe38bdb8a6e7d9a5dfedd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:01 +0000
Subject: [PATCH 187/212] fix: PCA requests are enabled by ECF and ECCF bits,
 and reset stops the PCA

---
 src/sims/s51.src/pca.cc  | 47 +++++++++++++++++++++++++++++++++++++---
 src/sims/s51.src/pcacl.h |  2 ++
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/sims/s51.src/pca.cc b/src/sims/s51.src/pca.cc
index 98191b1..06fd011 100644
--- a/src/sims/s51.src/pca.cc
+++ b/src/sims/s51.src/pca.cc
@@ -40,9 +40,11 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_pca::cl_pca(class cl_uc *auc, int aid):
   cl_hw(auc, HW_PCA, aid, "pca")
 {
-  t0_overflows= ECI_edge= 0;
   int i;
-  for (i= 0; i < 5; cex_pos[i]= cex_neg[i]= false, i++) ;
+  it_cf= 0;
+  for (i= 0; i < 5; i++)
+    it_ccf[i]= 0;
+  cl_pca::reset();
 }
 
 int
@@ -89,36 +91,66 @@ cl_pca::added_to_uc(void)
 					      0x0033, false, false,
 					      "PCA module #4", 5));
   is->init();
+  it_ccf[4]= is;
   uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
 					      sfr->get_cell(IE), bmEC,
 					      sfr->get_cell(CCON), bmCCF3,
 					      0x0033, false, false,
 					      "PCA module #3", 5));
   is->init();
+  it_ccf[3]= is;
   uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
 					      sfr->get_cell(IE), bmEC,
 					      sfr->get_cell(CCON), bmCCF2,
 					      0x0033, false, false,
 					      "PCA module #2", 5));
   is->init();
+  it_ccf[2]= is;
   uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
 					      sfr->get_cell(IE), bmEC,
 					      sfr->get_cell(CCON), bmCCF1,
 					      0x0033, false, false,
 					      "PCA module #1", 5));
   is->init();
+  it_ccf[1]= is;
   uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
 					      sfr->get_cell(IE), bmEC,
 					      sfr->get_cell(CCON), bmCCF0,
 					      0x0033, false, false,
 					      "PCA module #0", 5));
   is->init();
+  it_ccf[0]= is;
   uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
 					      sfr->get_cell(IE), bmEC,
 					      sfr->get_cell(CCON), bmCF,
 					      0x0033, false, false,
 					      "PCA counter", 5));
   is->init();
+  it_cf= is;
+  enable_its();
+}
+
+/* Requests of the counter and of the modules are enabled by ECF and ECCFn */
+
+void
+cl_pca::enable_its(void)
+{
+  int i;
+  if (it_cf)
+    {
+      if (bit_ECF)
+	it_cf->activate();
+      else
+	it_cf->deactivate();
+    }
+  for (i= 0; i < 5; i++)
+    if (it_ccf[i])
+      {
+	if (ccapm[i] & bmECCF0)
+	  it_ccf[i]->activate();
+	else
+	  it_ccf[i]->deactivate();
+      }
 }
 
 void
@@ -135,6 +167,7 @@ cl_pca::write(class cl_memory_cell *cell, t_mem *val)
       t_mem o= clk_source;
       if ((clk_source= *val & (bmCPS1|bmCPS0)) != o)
 	t0_overflows= ECI_edge= 0;
+      enable_its();
     }
   else if (cell == cell_ccon)
     {
@@ -155,6 +188,7 @@ cl_pca::write(class cl_memory_cell *cell, t_mem *val)
 	      ccapm[i]= *val & 0xff;
 	      if (o != ccapm[i])
 		cex_neg[i]= cex_pos[i]= false;
+	      enable_its();
 	    }
 	  else
 	    {
@@ -317,8 +351,15 @@ void
 cl_pca::reset(void)
 {
   t0_overflows= ECI_edge= 0;
+  clk_source= 0;
+  bit_CIDL= bit_WDTE= bit_ECF= bit_CR= false;
   int i;
-  for (i= 0; i < 5; cex_pos[i]= cex_neg[i]= false, i++) ;
+  for (i= 0; i < 5; i++)
+    {
+      ccapm[i]= 0;
+      cex_pos[i]= cex_neg[i]= false;
+    }
+  enable_its();
 }
 
 void
diff --git a/src/sims/s51.src/pcacl.h b/src/sims/s51.src/pcacl.h
index 2ffecfa..4ec6031 100644
--- a/src/sims/s51.src/pcacl.h
+++ b/src/sims/s51.src/pcacl.h
@@ -49,6 +49,7 @@ public:
   t_mem clk_source;
   bool bit_CIDL, bit_WDTE, bit_ECF, bit_CR;
   bool cex_pos[5], cex_neg[5];
+  class cl_it_src *it_cf, *it_ccf[5];
 public:
   cl_pca(class cl_uc *auc, int aid);
   virtual int init(void);
@@ -64,6 +65,7 @@ public:
   virtual void do_pca_capture(int nr);
   virtual bool do_pca_module(int nr);
   virtual void reset(void);
+  virtual void enable_its(void);
   virtual void happen(class cl_hw *where, enum hw_event he, void *params);
  
   virtual void print_info(class cl_console_base *con);
-- 
2.43.0


From 25993aeae192542e0b52a68bc3ccdd0375d9338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:10 +0000
Subject: [PATCH 188/212] fix: ACALL to first page is a call for the next
 command

---
 src/sims/s51.src/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/s51.src/glob.cc b/src/sims/s51.src/glob.cc
index 25a02a6..9a3307a 100644
--- a/src/sims/s51.src/glob.cc
+++ b/src/sims/s51.src/glob.cc
@@ -54,7 +54,7 @@ struct dis_entry disass_51[]= {
   { 0x0e, 0xff, ' ', 1, "INC R6"},
   { 0x0f, 0xff, ' ', 1, "INC R7"},
   { 0x10, 0xff, 'R', 3, "JBC %b,%R"},
-  { 0x11, 0xff, 'a', 2, "ACALL %A"},
+  { 0x11, 0xff, 'a', 2, "ACALL %A", true},
   { 0x12, 0xff, 'l', 3, "LCALL %l", true},
   { 0x13, 0xff, ' ', 1, "RRC A"},
   { 0x14, 0xff, ' ', 1, "DEC A"},
-- 
2.43.0


From a5b44a87e8d4f3d2d24666c11201226ae523a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:10 +0000
Subject: [PATCH 189/212] fix: next command knows calls of 8080

---
 src/sims/i8085.src/glob.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 4ff1fb2..5ed5426 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -98,15 +98,15 @@ struct dis_entry disass_common[]=
     { 0xf2, 0xff, ' ', 3, "JP 'a16'" },
     { 0xfa, 0xff, ' ', 3, "JM 'a16'" },
     
-    { 0xcd, 0xff, ' ', 3, "CALL 'a16'" },
-    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'" },
-    { 0xcc, 0xff, ' ', 3, "CZ 'a16'" },
-    { 0xd4, 0xff, ' ', 3, "CNC 'a16'" },
-    { 0xdc, 0xff, ' ', 3, "CC 'a16'" },
-    { 0xe4, 0xff, ' ', 3, "CPO 'a16'" },
-    { 0xec, 0xff, ' ', 3, "CPE 'a16'" },
-    { 0xf4, 0xff, ' ', 3, "CP 'a16'" },
-    { 0xfc, 0xff, ' ', 3, "CM 'a16'" },
+    { 0xcd, 0xff, ' ', 3, "CALL 'a16'", true },
+    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'", true },
+    { 0xcc, 0xff, ' ', 3, "CZ 'a16'", true },
+    { 0xd4, 0xff, ' ', 3, "CNC 'a16'", true },
+    { 0xdc, 0xff, ' ', 3, "CC 'a16'", true },
+    { 0xe4, 0xff, ' ', 3, "CPO 'a16'", true },
+    { 0xec, 0xff, ' ', 3, "CPE 'a16'", true },
+    { 0xf4, 0xff, ' ', 3, "CP 'a16'", true },
+    { 0xfc, 0xff, ' ', 3, "CM 'a16'", true },
     
     { 0xc9, 0xff, ' ', 1, "RET" },
     { 0xc0, 0xff, ' ', 1, "RNZ" },
@@ -118,7 +118,7 @@ struct dis_entry disass_common[]=
     { 0xf0, 0xff, ' ', 1, "RP" },
     { 0xf8, 0xff, ' ', 1, "RM" },
 
-    { 0xc7, 0xc7, ' ', 1, "RST 'rst'" },
+    { 0xc7, 0xc7, ' ', 1, "RST 'rst'", true },
     { 0xe9, 0xff, ' ', 1, "PCHL" },
 
     { 0, 0, 0, 0, 0, 0 }
@@ -135,9 +135,9 @@ struct dis_entry disass_8080[]=
     { 0x38, 0xff, ' ', 1, "*NOP" },
     { 0xd9, 0xff, ' ', 1, "*RET" },
     { 0xcb, 0xff, ' ', 3, "*JMP 'a16'" },
-    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xed, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'" },
+    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xed, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'", true },
     { 0, 0, 0, 0, 0, 0 }
   };
 
@@ -151,7 +151,7 @@ struct dis_entry disass_8085[]=
     { 0x08, 0xff, ' ', 1, "DSUB" },
     { 0xdd, 0xff, ' ', 3, "JNX5 'a16'" },
     { 0xfd, 0xff, ' ', 3, "JX5 'a16'" },
-    { 0xcb, 0xff, ' ', 1, "RSTV" },
+    { 0xcb, 0xff, ' ', 1, "RSTV", true },
     { 0x28, 0xff, ' ', 2, "LDHI 'hli8'" },
     { 0x38, 0xff, ' ', 2, "LDSI 'spi8'" },
     { 0xed, 0xff, ' ', 1, "LHLX 'de16'" },
-- 
2.43.0


From 01e9ba7de02fcfb4c95e295dccd5ccc1b05c4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:10 +0000
Subject: [PATCH 190/212] fix: next command knows calls of 6809

---
 src/sims/m6809.src/glob.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/m6809.src/glob.cc b/src/sims/m6809.src/glob.cc
index abb452e..481973f 100644
--- a/src/sims/m6809.src/glob.cc
+++ b/src/sims/m6809.src/glob.cc
@@ -78,12 +78,12 @@ struct dis_entry disass_m6809[]=
    { 0x2e, 0xff, 'b', 1, "BGT %b"	, 0, 0 },
    { 0x2f, 0xff, 'b', 1, "BLE %b"	, 0, 0 },
 
-   { 0x8d, 0xff, 's', 1, "BSR %b"	, 0, 0 },
-   { 0xbd, 0xff, 's', 1, "JSR %j"	, 0, 0 },
-   { 0x8d, 0xcf, 's', 1, "JSR %b"	, 0, 0 },
+   { 0x8d, 0xff, 's', 1, "BSR %b"	, true, 0 },
+   { 0xbd, 0xff, 's', 1, "JSR %j"	, true, 0 },
+   { 0x8d, 0xcf, 's', 1, "JSR %b"	, true, 0 },
    
    { 0x16, 0xff, ' ', 1, "LBRA %B"	, 0, 0 },
-   { 0x17, 0xff, ' ', 1, "LBSR %B"	, 0, 0 },
+   { 0x17, 0xff, ' ', 1, "LBSR %B"	, true, 0 },
 
    { 0x30, 0xff, ' ', 1, "LEAX %X"	, 0, 0 },
    { 0x31, 0xff, ' ', 1, "LEAY %X"	, 0, 0 },
-- 
2.43.0


From a0ede1a3b9621836b8a7abe5729292d3eb762fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:10 +0000
Subject: [PATCH 191/212] fix: next command knows calls of 6800, 6801 and
 68HC11

---
 src/core/motorola.src/g11p0.cc  | 2 +-
 src/core/motorola.src/g11p18.cc | 2 +-
 src/core/motorola.src/glob68.cc | 8 ++++----
 src/core/motorola.src/m6800.cc  | 7 +++++++
 src/core/motorola.src/m6800cl.h | 1 +
 5 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/core/motorola.src/g11p0.cc b/src/core/motorola.src/g11p0.cc
index 1f467b2..5b9e1d6 100644
--- a/src/core/motorola.src/g11p0.cc
+++ b/src/core/motorola.src/g11p0.cc
@@ -47,7 +47,7 @@ struct dis_entry disass11p0[]= {
   { 0xa3, 0xff, ' ', 2, "SUB D,%X" },
   { 0xb3, 0xff, ' ', 3, "SUB D,%E" },
   { 0x8f, 0xff, ' ', 1, "XGDX" },
-  { 0x9d, 0xff, 'd', 2, "JSR %d" },
+  { 0x9d, 0xff, 'd', 2, "JSR %d", true },
   { 0xc3, 0xff, ' ', 3, "ADD D,%B" },
   { 0xd3, 0xff, ' ', 2, "ADD D,%D" },
   { 0xe3, 0xff, ' ', 2, "ADD D,%X" },
diff --git a/src/core/motorola.src/g11p18.cc b/src/core/motorola.src/g11p18.cc
index 8f8b2f3..b14dd61 100644
--- a/src/core/motorola.src/g11p18.cc
+++ b/src/core/motorola.src/g11p18.cc
@@ -67,7 +67,7 @@ struct dis_entry disass11p18[]= {
   { 0xaa, 0xff, ' ', 3, "ORA A,%x" },
   { 0xab, 0xff, ' ', 3, "ADD A,%x" },
   { 0xac, 0xff, ' ', 3, "CPY %X" },
-  { 0xad, 0xff, '_', 3, "JSR %X" },
+  { 0xad, 0xff, '_', 3, "JSR %X", true },
   { 0xae, 0xff, ' ', 3, "LDS %X" },
   { 0xaf, 0xff, ' ', 3, "STS %X" },
   { 0xbc, 0xff, ' ', 4, "CPY %E" },
diff --git a/src/core/motorola.src/glob68.cc b/src/core/motorola.src/glob68.cc
index 17fed6c..bd2e8fb 100644
--- a/src/core/motorola.src/glob68.cc
+++ b/src/core/motorola.src/glob68.cc
@@ -141,7 +141,7 @@ struct dis_entry disass_m6800[]=
     { 0x8a, 0xff, ' ', 2, "ORA A,%b" },
     { 0x8b, 0xff, ' ', 2, "ADD A,%b" },
     { 0x8c, 0xff, ' ', 3, "CPX %B" },
-    { 0x8d, 0xff, ' ', 2, "BSR %r" },
+    { 0x8d, 0xff, ' ', 2, "BSR %r", true },
     { 0x8e, 0xff, ' ', 3, "LDS %B" },
 
     { 0x90, 0xff, ' ', 2, "SUB A,%d" },
@@ -171,7 +171,7 @@ struct dis_entry disass_m6800[]=
     { 0xaa, 0xff, ' ', 2, "ORA A,%x" },
     { 0xab, 0xff, ' ', 2, "ADD A,%x" },
     { 0xac, 0xff, ' ', 2, "CPX %X" },
-    { 0xad, 0xff, '_', 2, "JSR %X" },
+    { 0xad, 0xff, '_', 2, "JSR %X", true },
     { 0xae, 0xff, ' ', 2, "LDS %X" },
     { 0xaf, 0xff, ' ', 2, "STS %X" },
 
@@ -187,7 +187,7 @@ struct dis_entry disass_m6800[]=
     { 0xba, 0xff, ' ', 3, "ORA A,%e" },
     { 0xbb, 0xff, ' ', 3, "ADD A,%e" },
     { 0xbc, 0xff, ' ', 3, "CPX %E" },
-    { 0xbd, 0xff, 'E', 3, "JSR %e" },
+    { 0xbd, 0xff, 'E', 3, "JSR %e", true },
     { 0xbe, 0xff, ' ', 3, "LDS %E" },
     { 0xbf, 0xff, ' ', 3, "STS %E" },
 
@@ -252,7 +252,7 @@ struct dis_entry disass_m6800[]=
 struct dis_entry disass_m6801[]=
   {
     { 0x21, 0xff, ' ', 2, "BRN %r" },
-    { 0x9d, 0xff, 'd', 2, "JSR %d" },
+    { 0x9d, 0xff, 'd', 2, "JSR %d", true },
     { 0x3c, 0xff, ' ', 1, "PSHX" },
     { 0x38, 0xff, ' ', 1, "PULX" },
 
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 3d71f7e..d449935 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -460,6 +460,13 @@ cl_m6800::inst_length(t_addr addr)
   return 1;
 }
 
+bool
+cl_m6800::is_call(t_addr addr)
+{
+  struct dis_entry *di= get_dis_entry(addr);
+  return di && di->mnemonic && di->is_call;
+}
+
 t_addr
 cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
diff --git a/src/core/motorola.src/m6800cl.h b/src/core/motorola.src/m6800cl.h
index 47acc0f..59813b1 100644
--- a/src/core/motorola.src/m6800cl.h
+++ b/src/core/motorola.src/m6800cl.h
@@ -191,6 +191,7 @@ public:
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
   virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual int longest_inst(void) { return 4; }
   
   virtual void print_regs(class cl_console_base *con);
-- 
2.43.0


From 1aa3002dc2043dd7c41fb0236f297808e0d97f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:10 +0000
Subject: [PATCH 192/212] fix: next command knows calls of 8048

---
 src/sims/i8048.src/decode.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 9a3d970..abe128b 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -23,7 +23,7 @@ DEC( 10, INCIR0 	, "inc @r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 11, INCIR1 	, "inc @r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 12, JB0		, "jb0 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 13, ADCI8		, "addc a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 14, CALL0  	, "call 'a11'"	, '_', 2, false, 2, (void*)"8421" )
+DEC( 14, CALL0  	, "call 'a11'"	, '_', 2, true, 2, (void*)"8421" )
 DEC( 15, DISI		, "dis i"	, ' ', 1, false, 1, (void*)"842-" )
 DEC( 16, JTF		, "jtf 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
 DEC( 17, INCA   	, "inc a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -57,7 +57,7 @@ DEC( 30, XCHDIR0	, "xchd a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 31, XCHDIR1	, "xchd a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 32, JB1		, "jb1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // 33 undefined
-DEC( 34, CALL1  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 34, CALL1  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 35, DISTCNTI	, "dis tcnti"	, ' ', 1, false, 1, (void*)"842-" ) //48,41,22
 DEC( 36, JT0		, "jt0 'a8'"	, 'i', 2, false, 2, (void*)"842-" ) //48,41,22
 DEC( 37, CPLA		, "cpl a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -91,7 +91,7 @@ DEC( 50, ANLIR0		, "anl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 51, ANLIR1		, "anl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 52, JB2		, "jb2 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 55, STRTT		, "strt t"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 56, JT1		, "jt1 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
 DEC( 57, DAA		, "da a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -124,7 +124,7 @@ DEC( 6f, ADDR7		, "add a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
-DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 1, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -164,7 +164,7 @@ DEC( 91, MOVXIR1A	, "movx @r1,a"	, ' ', 1, false, 2, (void*)"8---" ) //48
 DEC( 92, JB4		, "jb4 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETR		, "retr"	, '_', 1, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETI		, "ret i"	, '_', 1, false, 2, (void*)"--2-" ) //22
-DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,42,22
+DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"842-" ) //48,42,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
@@ -197,7 +197,7 @@ DEC( b0, MOVIR0I8	, "mov @r0,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b1, MOVIR1I8	, "mov @r1,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b2, JB5		, "jb5 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( b3, JMPPIA		, "jmpp @a"	, '_', 1, false, 2, (void*)"8421" )
-DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,42,22
+DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"842-" ) //48,42,22
 DEC( b5, CPLF1		, "cpl f1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( b6, JF0		, "jf0 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // b7 undefined
@@ -231,7 +231,7 @@ DEC( d0, XRLIR0		, "xrl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d1, XRLIR1		, "xrl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d2, JB6		, "jb6 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( d3, XRLI8		, "xrl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,42,22
+DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"842-" ) //48,42,22
 DEC( d5, SELRB1		, "sel rb1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( d6, JNIBF 		, "jnibf 'a8'" 	, 'i', 2, false, 2, (void*)"-4--" ) //41
 DEC( d7, MOVFA		, "mov psw,a"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
@@ -266,7 +266,7 @@ DEC( f0, MOVAIR0	, "mov a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f1, MOVAIR1	, "mov a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f2, JB7		, "jb7 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // f3 undefined
-DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"842-" ) //48,42,22
+DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"842-" ) //48,42,22
 DEC( f5, SELMB1		, "sel mb1"	, ' ', 1, false, 1, (void*)"8---" ) //48
 DEC( f5, ENFLAGS	, "en flags"	, ' ', 1, false, 1, (void*)"-4--" ) //41
 DEC( f6, JC		, "jc 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
-- 
2.43.0


From c716d8b899f7cdc75e15f5cdea4c882a47aad3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:10 +0000
Subject: [PATCH 193/212] fix: next command knows RCALL and ICALL of AVR

---
 src/sims/avr.src/glob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/glob.cc b/src/sims/avr.src/glob.cc
index 94226d5..7bca1e6 100644
--- a/src/sims/avr.src/glob.cc
+++ b/src/sims/avr.src/glob.cc
@@ -87,7 +87,7 @@ struct dis_entry disass_avr[]= {
   { 0x1000, 0xfc00, ' ', 1, "cpse %d,%r" },
   { 0x940a, 0xfe0f, ' ', 1, "dec %d" },
   { 0x2400, 0xfc00, ' ', 1, "eor %d,%r" },
-  { 0x9509, 0xff0f, ' ', 1, "icall" },
+  { 0x9509, 0xff0f, ' ', 1, "icall", true },
   { 0x9409, 0xff0f, ' ', 1, "ijmp" },
   { 0xb000, 0xf800, ' ', 1, "in %d,%p" },
   { 0x9403, 0xfe0f, ' ', 1, "inc %d" },
@@ -116,7 +116,7 @@ struct dis_entry disass_avr[]= {
   { 0xb800, 0xf800, ' ', 1, "out %p,%d" },
   { 0x900f, 0xfe0f, ' ', 1, "pop %d" },
   { 0x920f, 0xfe0f, ' ', 1, "push %d" },
-  { 0xd000, 0xf000, ' ', 1, "rcall %a" },
+  { 0xd000, 0xf000, ' ', 1, "rcall %a", true },
   { 0x9508, 0xff9f, ' ', 1, "ret" },
   { 0x9518, 0xff9f, ' ', 1, "reti" },
   { 0xc000, 0xf000, ' ', 1, "rjmp %a" },
-- 
2.43.0


From 835b4fa6bacf10f8b588a43b785829718ebb2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:36 +0000
Subject: [PATCH 194/212] fix: stop drops pending time limit of step command

---
 src/core/sim.src/sim.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/sim.src/sim.cc b/src/core/sim.src/sim.cc
index f40ffb3..4aa83f5 100644
--- a/src/core/sim.src/sim.cc
+++ b/src/core/sim.src/sim.cc
@@ -228,6 +228,9 @@ cl_sim::stop(int reason)
     con= cmd->frozen_or_actual();
 
   state&= ~(SIM_GO|SIM_EMU);
+  // what remained of an interrupted step does not stop later commands
+  if (uc)
+    uc->stop_when(NULL);
   stop_at= dnow();
   if (simif)
     simif->cfg_set(simif_reason, reason);
-- 
2.43.0


From 6ade25561e436a7fefef083c99ea16f6b41e3b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:58 +0000
Subject: [PATCH 195/212] fix: PIA control register B is at the fourth address

---
 src/core/motorola.src/pia.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/pia.cc b/src/core/motorola.src/pia.cc
index e015490..dcc5345 100644
--- a/src/core/motorola.src/pia.cc
+++ b/src/core/motorola.src/pia.cc
@@ -63,7 +63,7 @@ cl_pia::init(void)
   ddra= cfg_cell(cfg_ddra);
   ora = cfg_cell(cfg_ora);
   ina = cfg_cell(cfg_ina);
-  crb = rs[2];
+  crb = rs[3];
   ddrb= cfg_cell(cfg_ddrb);
   orb = cfg_cell(cfg_orb);
   inb = cfg_cell(cfg_inb);
-- 
2.43.0


From 7a0f0499eee74e8f9b82409afbdcfade00dda544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:58 +0000
Subject: [PATCH 196/212] fix: requests cell of PIA sets flags of port B too

---
 src/core/motorola.src/pia.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/motorola.src/pia.cc b/src/core/motorola.src/pia.cc
index dcc5345..9f17f9b 100644
--- a/src/core/motorola.src/pia.cc
+++ b/src/core/motorola.src/pia.cc
@@ -342,12 +342,11 @@ cl_pia::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
 	  ca|= (*val&4)?0x80:0;
 	  cra->set(ca);
 	  u8_t cb= crb->get() & 0x3f;
-	  ca|= (*val&2)?0x40:0;
-	  ca|= (*val&1)?0x80:0;
+	  cb|= (*val&2)?0x40:0;
+	  cb|= (*val&1)?0x80:0;
 	  crb->set(cb);
 	}
-      else
-	{
+      {
 	  u8_t ca= cra->get(), cb= crb->get();
 	  cell->set(
 		    ((ca&0x40)?8:0) |
-- 
2.43.0


From eff2288998afeecf380265cc025920aae5ec40af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:58 +0000
Subject: [PATCH 197/212] fix: PIA does not request interrupt by CA2 and CB2 as
 outputs

---
 src/core/motorola.src/pia.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/motorola.src/pia.cc b/src/core/motorola.src/pia.cc
index 9f17f9b..fdb5752 100644
--- a/src/core/motorola.src/pia.cc
+++ b/src/core/motorola.src/pia.cc
@@ -268,6 +268,9 @@ cl_pia::write(class cl_memory_cell *cell, t_mem *val)
 	{
 	  *val&= 0x3f;
 	  *val|= (r->get() & 0xc0);
+	  // no request of CA2, CB2 when it is an output
+	  if (*val & 0x20)
+	    *val&= ~0x40;
 
 	  if (r == cra)
 	    {
-- 
2.43.0


From 3d9a2194438a16a57782d5391a5e0775257e42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:42 +0000
Subject: [PATCH 198/212] fix: serial lines count every bit of a long
 instruction

---
 src/core/sim.src/serial_hw.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core/sim.src/serial_hw.cc b/src/core/sim.src/serial_hw.cc
index cfe318e..11cfc7b 100644
--- a/src/core/sim.src/serial_hw.cc
+++ b/src/core/sim.src/serial_hw.cc
@@ -858,11 +858,16 @@ cl_serial_hw::prediv_bitcnt(int cycles)
   mcnt+= cycles;
   if (mcnt >= cpb)
     {
-      mcnt-= cpb;
-      if (ten && (s_tr_bit < bits))
-	s_tr_bit++;
-      if (ren && (s_rec_bit < bits))
-	s_rec_bit++;
+      // an instruction can be longer than a bit
+      do
+	{
+	  mcnt-= cpb;
+	  if (ten && (s_tr_bit < bits))
+	    s_tr_bit++;
+	  if (ren && (s_rec_bit < bits))
+	    s_rec_bit++;
+	}
+      while ((cpb > 0) && (mcnt >= cpb));
       return true;
     }
   return false;
-- 
2.43.0


From f15c098ac615aa5e15ccf89822843a6891322e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:42 +0000
Subject: [PATCH 199/212] fix: frames of 6850 include the start bit

---
 src/core/motorola.src/cia.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/core/motorola.src/cia.cc b/src/core/motorola.src/cia.cc
index 81d4823..f6a268e 100644
--- a/src/core/motorola.src/cia.cc
+++ b/src/core/motorola.src/cia.cc
@@ -421,14 +421,15 @@ cl_cia::pick_ctrl()
 {
   switch ((r_cr->get() >> 2) & 7)
     {
-    case 0: bits= 10; break;
-    case 1: bits= 10; break;
-    case 2: bits=  9; break;
-    case 3: bits=  9; break;
-    case 4: bits= 10; break;
-    case 5: bits=  9; break;
-    case 6: bits= 10; break;
-    case 7: bits= 10; break;
+    // start, data, parity and stop bits
+    case 0: bits= 11; break;
+    case 1: bits= 11; break;
+    case 2: bits= 10; break;
+    case 3: bits= 10; break;
+    case 4: bits= 11; break;
+    case 5: bits= 10; break;
+    case 6: bits= 11; break;
+    case 7: bits= 11; break;
     }
   s_rec_bit= s_tr_bit= 0;
   s_receiving= false;
-- 
2.43.0


From b98d4505f16929ee959a0fdf35d0cee85402f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:42 +0000
Subject: [PATCH 200/212] fix: enabling interrupts of 6850 does not lose
 characters

---
 src/core/motorola.src/cia.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/cia.cc b/src/core/motorola.src/cia.cc
index f6a268e..61f9915 100644
--- a/src/core/motorola.src/cia.cc
+++ b/src/core/motorola.src/cia.cc
@@ -171,9 +171,15 @@ cl_cia::write(class cl_memory_cell *cell, t_mem *val)
     return;
   if (cell == regs[cr])
     {
+      t_mem old= r_cr->get();
       r_cr->set(*val);
-      pick_div();
-      pick_ctrl();
+      // changing interrupt enables does not disturb the characters on the line
+      if (((old ^ *val) & 0x1f) ||
+	  ((*val & 3) == 3))
+	{
+	  pick_div();
+	  pick_ctrl();
+	}
       //*val= cell->get();
       set_sr_irq();
     }
-- 
2.43.0


From ac2a6ed69bba01418c72ea61e3377bc674478743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:26 +0000
Subject: [PATCH 201/212] fix: prescaler of STM8 timers divides by its value,
 not by one less

---
 src/sims/stm8.src/timer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index 3221591..c0498eb 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -137,7 +137,7 @@ cl_tim::tick(int cycles)
       // count prescaler
       if (prescaler_cnt)
 	prescaler_cnt--;
-      if (prescaler_cnt == 0)
+      else
 	{
 	  prescaler_cnt= calc_prescaler() - 1;
 	  // count
-- 
2.43.0


From 4e61de148ca3020d7536652db35584bb89079e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:26 +0000
Subject: [PATCH 202/212] fix: period of edge aligned STM8 timers is reload
 value plus one

---
 src/sims/stm8.src/timer.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index c0498eb..b8802f1 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -326,10 +326,11 @@ cl_tim::count(void)
     {
       // up
       u16_t arr= get_arr();
+      bool edge= (c1 & cms) == cms0, over= cnt == arr;
       set_counter(cnt+1);
-      if (cnt == arr)
+      if (edge?over:(cnt == arr))
 	{
-	  if ((c1 & cms) == cms0)
+	  if (edge)
 	    // edge aligned
 	    set_counter(0);
 	  else
@@ -342,10 +343,11 @@ cl_tim::count(void)
   else
     {
       // down
+      bool edge= (c1 & cms) == cms0, under= cnt == 0;
       set_counter(cnt-1);
-      if (cnt == 0)
+      if (edge?under:(cnt == 0))
 	{
-	  if ((c1 & cms) == cms0)
+	  if (edge)
 	    // edge aligned
 	    set_counter(get_arr());
 	  else
-- 
2.43.0


From b5411d8db159a84c7032bc5645ba30ce6c80d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:26 +0000
Subject: [PATCH 203/212] fix: writing counter registers of STM8 timers sets
 the counter

---
 src/sims/stm8.src/timer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index b8802f1..1251395 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -261,6 +261,10 @@ cl_tim::write(class cl_memory_cell *cell, t_mem *val)
 	}
       *val= 0;
     }
+  else if (a == idx.cntrh)
+    cnt= (cnt & 0xff) | (*val << 8);
+  else if (a == idx.cntrl)
+    cnt= (cnt & ~0xff) | *val;
   else if (a == idx.pscrh)
     {
       prescaler_ms_buffer= *val;
-- 
2.43.0


From 4494f10d7e80e9c2e43b5d38bf20896c12dd70f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:26 +0000
Subject: [PATCH 204/212] fix: UG of STM8 timers always restarts the counter,
 regards UDIS and URS

---
 src/sims/stm8.src/timer.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index 1251395..8fcdf65 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -255,7 +255,13 @@ cl_tim::write(class cl_memory_cell *cell, t_mem *val)
     {
       if (*val & ug)
 	{
-	  update_event();
+	  u8_t c1= regs[idx.cr1]->get(), s= regs[idx.sr1]->get();
+	  if (c1 & udis)
+	    set_counter(get_dir()?0:get_arr());
+	  else
+	    update_event();
+	  if (c1 & urs)
+	    regs[idx.sr1]->set(s);
 	  prescaler_cnt= calc_prescaler() - 1;
 	  //*val&= ~0x01;
 	}
@@ -388,19 +394,16 @@ cl_tim::update_event(void)
 
   if (c1 & opm)
     regs[idx.cr1]->set(regs[idx.cr1]->get() & ~cen);
+  if (get_dir())
+    {
+      // up
+      set_counter(0);
+    }
   else
     {
-      if (get_dir())
-	{
-	  // up
-	  set_counter(0);
-	}
-      else
-	{
-	  // down
-	  u16_t ar= get_arr();
-	  set_counter(ar);
-	}
+      // down
+      u16_t ar= get_arr();
+      set_counter(ar);
     }
   regs[idx.sr1]->write(regs[idx.sr1]->read() | uif);
 }
-- 
2.43.0


From 15174e2fd84163e7ca92cb6218b8c68993f5d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:26 +0000
Subject: [PATCH 205/212] fix: up counting STM8 timers have ARPE bit but no
 DIR, 8 bit ones no high reload register

---
 src/sims/stm8.src/timer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index 8fcdf65..2d3d932 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -240,7 +240,7 @@ cl_tim::write(class cl_memory_cell *cell, t_mem *val)
     {
       u8_t v= cell->get();
       if (!bidir)
-	*val&= 0x1f;
+	*val&= ~(dir|cms);
       else
 	{
 	  if ((v & cms))
@@ -279,7 +279,7 @@ cl_tim::write(class cl_memory_cell *cell, t_mem *val)
   else if (a == idx.pscrl)
     {
       prescaler_preload= *val;
-      if (idx.pscrh > 0)
+      if (pbits > 8)
 	prescaler_preload+= prescaler_ms_buffer * 256;
     }
     
@@ -297,7 +297,7 @@ cl_tim::write(class cl_memory_cell *cell, t_mem *val)
       if ((regs[idx.cr1]->get() & arpe) != 0)
 	{
 	  regs[idx.arrl]->set(l= *val);
-	  if (idx.arrh > 0)
+	  if (bits > 8)
 	    regs[idx.arrh]->set(h= arr_ms_buffer);
 	  if ((regs[idx.cr1]->get() & arpe) == 0)
 	    set_counter(h*256 + l);
-- 
2.43.0


From 4a06e9f16405637001036d49609170c68ea1b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:26 +0000
Subject: [PATCH 206/212] fix: reset clears access buffers of STM8 timers

---
 src/sims/stm8.src/timer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index 2d3d932..ccd1350 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -159,6 +159,9 @@ cl_tim::reset(void)
   cnt= 0;
   prescaler_cnt= 0;
   prescaler_preload= 0;
+  prescaler_ms_buffer= 0;
+  arr_ms_buffer= 0;
+  timer_ls_buffer= 0;
 
   for (i= 0; i<32+6; i++)
     regs[i]->set(0);
-- 
2.43.0


From 37f4be98fbaaa078a673cb150e376bcc9132ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:26 +0000
Subject: [PATCH 207/212] fix: second general purpose timer of STM8L101 is TIM3

---
 src/sims/stm8.src/stm8.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index 4ace9df..4a5ac14 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -497,7 +497,7 @@ cl_stm8::mk_hw_elements(void)
       h->init();
       add_hw(h= new cl_tim2_l101(this, 2, 0x5250));
       h->init();
-      add_hw(h= new cl_tim3_l101(this, 2, 0x5280));
+      add_hw(h= new cl_tim3_l101(this, 3, 0x5280));
       h->init();
       add_hw(h= new cl_tim4_l101(this, 4, 0x52E0));
       h->init();
-- 
2.43.0


From 579c82171b2eadd2b9ceb56eff4f9467a7c88398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:26 +0000
Subject: [PATCH 208/212] fix: program can not set flags in status register of
 STM8 timers

---
 src/sims/stm8.src/timer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index ccd1350..0c788ae 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -254,6 +254,8 @@ cl_tim::write(class cl_memory_cell *cell, t_mem *val)
 	    }
 	}
     }
+  else if (a == idx.sr1)
+    *val&= cell->get();
   else if (a == idx.egr)
     {
       if (*val & ug)
@@ -408,7 +410,7 @@ cl_tim::update_event(void)
       u16_t ar= get_arr();
       set_counter(ar);
     }
-  regs[idx.sr1]->write(regs[idx.sr1]->read() | uif);
+  regs[idx.sr1]->set(regs[idx.sr1]->get() | uif);
 }
 
 // true: UP, false: down
-- 
2.43.0


From a91801b17f7cb26af883a018538425042fbf2fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:40 +0000
Subject: [PATCH 209/212] fix: reading status and data of STM8 UART clears
 error flags

---
 src/sims/stm8.src/serial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/serial.cc b/src/sims/stm8.src/serial.cc
index 5a44b59..0165ca5 100644
--- a/src/sims/stm8.src/serial.cc
+++ b/src/sims/stm8.src/serial.cc
@@ -157,7 +157,7 @@ cl_serial::read(class cl_memory_cell *cell)
   if (cell == regs[dr])
     {
       if (sr_read)
-	regs[sr]->set(regs[sr]->get() | 0x1f);
+	regs[sr]->set(regs[sr]->get() & ~0x1f);
       //regs[sr]->set(regs[sr]->get() & ~0x20);
       show_readable(false);
       cfg_set(serconf_able_receive, 1);
-- 
2.43.0


From 07efed53a14ac1491449e4c84f37ef4cf9e2329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:40 +0000
Subject: [PATCH 210/212] fix: STM8 UART itself does not count as reader of its
 status register

---
 src/sims/stm8.src/serial.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/stm8.src/serial.cc b/src/sims/stm8.src/serial.cc
index 0165ca5..5a27d70 100644
--- a/src/sims/stm8.src/serial.cc
+++ b/src/sims/stm8.src/serial.cc
@@ -386,37 +386,37 @@ cl_serial::show_writable(bool val)
 {
   if (val)
     // TXE=1
-    regs[sr]->set(regs[sr]->read() | 0x80);
+    regs[sr]->set(regs[sr]->get() | 0x80);
   else
     // TXE=0
-    regs[sr]->set(regs[sr]->read() & ~0x80);
+    regs[sr]->set(regs[sr]->get() & ~0x80);
 }
 
 void
 cl_serial::show_readable(bool val)
 {
   if (val)
-    regs[sr]->set(regs[sr]->read() | 0x20);
+    regs[sr]->set(regs[sr]->get() | 0x20);
   else
-    regs[sr]->set(regs[sr]->read() & ~0x20);
+    regs[sr]->set(regs[sr]->get() & ~0x20);
 }
 
 void
 cl_serial::show_tx_complete(bool val)
 {
   if (val)
-    regs[sr]->set(regs[sr]->read() | 0x40);
+    regs[sr]->set(regs[sr]->get() | 0x40);
   else
-    regs[sr]->set(regs[sr]->read() & ~0x40);
+    regs[sr]->set(regs[sr]->get() & ~0x40);
 }
 
 void
 cl_serial::show_idle(bool val)
 {
   if (val)
-    regs[sr]->set(regs[sr]->read() | 0x10);
+    regs[sr]->set(regs[sr]->get() | 0x10);
   else
-    regs[sr]->set(regs[sr]->read() & ~0x10);
+    regs[sr]->set(regs[sr]->get() & ~0x10);
 }
 
 void
-- 
2.43.0


From 922a767a62861413b804d20d5207adc0008c3cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:40 +0000
Subject: [PATCH 211/212] fix: program can not set flags in status register of
 STM8 UART

---
 src/sims/stm8.src/serial.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/sims/stm8.src/serial.cc b/src/sims/stm8.src/serial.cc
index 5a27d70..b8c071f 100644
--- a/src/sims/stm8.src/serial.cc
+++ b/src/sims/stm8.src/serial.cc
@@ -175,12 +175,8 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
     return;
   if (cell == regs[sr])
     {
-      u8_t v= cell->get();
-      if ((*val & 0x40) == 0)
-	{
-	  v&= ~0x40;
-	  *val= v;
-	}
+      // TC and RXNE can be cleared, other flags are read only
+      *val= cell->get() & (*val | ~0x60);
     }
   else
     {
-- 
2.43.0


From e42516017c984f68ba9164f843f5cdddc48fb34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:40 +0000
Subject: [PATCH 212/212] fix: enabling interrupts of STM8 UART does not lose
 characters

---
 src/sims/stm8.src/serial.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/serial.cc b/src/sims/stm8.src/serial.cc
index b8c071f..4d1fed2 100644
--- a/src/sims/stm8.src/serial.cc
+++ b/src/sims/stm8.src/serial.cc
@@ -180,6 +180,7 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
     }
   else
     {
+      u8_t old= cell->get();
       cell->set(*val);
       if ((cell == regs[brr1]) ||
 	  (cell == regs[brr2]))
@@ -187,7 +188,8 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	  pick_div();
 	}
       else if ((cell == regs[cr1]) ||
-	       (cell == regs[cr2]))
+	       // changing interrupt enables does not disturb characters
+	       ((cell == regs[cr2]) && ((old ^ *val) & 0x0c)))
 	{
 	  pick_ctrl();
 	}
-- 
2.43.0


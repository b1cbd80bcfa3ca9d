From 02796e07d59aee8ea62be1f7b1eb39682a221074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 001/192] fix: compound assignment to a property failed at a
 stack depth not reached before

OP_PUSHTOP2 needs two free slots above the top but only the first is
guaranteed to be allocated, so v=f(1,o.p+=2) raised 'Invalid lookup/push'.
---
 src/jsiEval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 3ab20bb..adb470f 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1356,6 +1356,8 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 break;
             case OP_PUSHTOP2: {
                 Jsi_Value *vp1 = _jsi_STACKIDX(fp->Sp);
+                if (!_jsi_STACKIDX(fp->Sp+1))
+                    _jsi_STACKIDX(fp->Sp+1) = Jsi_ValueNew1(interp);
                 Jsi_Value *vp2 = _jsi_STACKIDX(fp->Sp+1);
                 if (!vp1 || !vp2 || fp->Sp<2)
                     rc = Jsi_LogError("Invalid lookup/push");
-- 
2.43.0


From 61f5851a00cb58def0f9b06171236c9d0092e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 002/192] fix: loose equality truncated the difference of
 unlike operands

0.5 == "0" and true == 0.5 compared equal because n2-n1 was converted to int.
---
 src/jsiValue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 5efe30f..37b6121 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -916,7 +916,7 @@ int Jsi_ValueCmp(Jsi_Interp *interp, Jsi_Value *v1, Jsi_Value* v2, int flags)
             Jsi_Number n1, n2;
             Jsi_ValueToNumberInt(interp, v1, 0, &n1);
             Jsi_ValueToNumberInt(interp, v2, 0, &n2);
-            r = (n2 - n1);
+            r = (n2 == n1 ? 0 : (n2 < n1 ? -1 : 1));
         }
     } else {
         switch (v1->vt) {
-- 
2.43.0


From 482c2ea9927b414ec330cb39994abd94b3473c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 003/192] fix: normalise the value of booleans

(2.5 != 100) produced a boolean holding -1, which was not equal to true.
---
 src/jsiValue.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 37b6121..81c97c5 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1609,7 +1609,7 @@ Jsi_Value* Jsi_ValueMakeBool(Jsi_Interp *interp, Jsi_Value **vPtr, int b) {
     else
         Jsi_ValueReset(interp, vPtr);
     v->vt = JSI_VT_BOOL;
-    v->d.val = b;
+    v->d.val = (b!=0);
     return v;
 }
 
@@ -1734,7 +1734,7 @@ Jsi_Value* Jsi_ValueNewBlob(Jsi_Interp *interp, unsigned char *s, uint len) {
 Jsi_Value* Jsi_ValueNewBoolean(Jsi_Interp *interp, int bval) {
     Jsi_Value *v = Jsi_ValueNew(interp);
     v->vt = JSI_VT_BOOL;
-    v->d.val = bval;
+    v->d.val = (bval!=0);
     return v;
 }
 
-- 
2.43.0


From c1f4c792b2450bff044f834d384cc53385841544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 004/192] fix: a finally block lost the exception in flight,
 and was skipped when a catch at top level threw

---
 src/jsiEval.c | 23 +++++++++++++++++------
 src/jsiInt.h  |  1 +
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index adb470f..e7ff465 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -312,6 +312,8 @@ static void jsiPopTry(Jsi_Interp* interp, jsi_TryList **head)
 {
     interp->framePtr->tryDepth--;
     jsi_TryList *t = (*head)->next;
+    if ((*head)->pending)
+        Jsi_DecrRefCount(interp, (*head)->pending);
     Jsi_Free(*head);
     *head = t;
     interp->tryList = t;
@@ -354,6 +356,8 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
     const char *str;
     while (1) {
         if (trylist == NULL) {
+            if (ps->last_exception && !Jsi_Strcmp(nam, "finally"))
+                top = ps->last_exception;
             str = (top?Jsi_ValueString(interp, top, NULL):"");
             if (str) {
                 if (!Jsi_Strcmp(nam, "help"))
@@ -377,12 +381,6 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
                 break;
             } else if (*ipp >= trylist->d.td.cstart && *ipp < trylist->d.td.cend) {
                 trylist->d.td.last_op = jsi_LOP_THROW; // in "catch"
-                if ((*ipp)->op == OP_THROW && interp->framePtr->tryDepth==1) {
-                    rc = JSI_ERROR; // TODO: fix nested exception error msg propagation
-                    if (ps->last_exception &&
-                        ((str = Jsi_ValueString(interp, ps->last_exception, NULL))))
-                        Jsi_LogError("%s near \"%s\"", nam, str);
-                }
                 *ipp = trylist->d.td.fstart - 1;
                 break;
             } else if (*ipp >= trylist->d.td.fstart && *ipp < trylist->d.td.fend) {
@@ -2005,6 +2003,17 @@ undef_eval:
 
                 /* restore scatch scope chain */
                 trylist->inFinal = 1;
+                if (trylist->d.td.last_op == jsi_LOP_THROW && !trylist->pending) {
+                    /* keep the exception: the finally block may throw and catch others */
+                    trylist->pending = Jsi_ValueNew1(interp);
+                    if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
+                        Jsi_ValueCopy(interp, trylist->pending, ps->last_exception);
+                        Jsi_ValueReset(interp, &ps->last_exception);
+                    } else {
+                        Jsi_ValueMakeStringDup(interp, &trylist->pending, interp->errMsgBuf);
+                        interp->errMsgBuf[0] = 0;
+                    }
+                }
                 JSI_RESTORE_SCOPE();
                 break;
             }
@@ -2016,6 +2025,8 @@ undef_eval:
                 int last_op = trylist->d.td.last_op;
                 jsi_OpCode *tojmp = (last_op == jsi_LOP_JMP ? trylist->d.td.ld.tojmp : 0);
                 
+                if (last_op == jsi_LOP_THROW && trylist->pending)
+                    Jsi_ValueDup2(interp, &ps->last_exception, trylist->pending);
                 pop_try(trylist);
 
                 if (last_op == jsi_LOP_THROW) {
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 3598052..dbe3af7 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1078,6 +1078,7 @@ typedef struct jsi_TryList {
     
     jsi_ScopeChain *scope_save;         /* saved scope (used in catch block/with block)*/
     Jsi_Value *curscope_save;           /* saved current scope */
+    Jsi_Value *pending;                 /* exception in flight while its finally block runs */
     struct jsi_TryList *next;
     bool inCatch;
     bool inFinal;
-- 
2.43.0


From 393fbd627e8307e904ebd88c729971e4fe9edcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 005/192] fix: an error raised inside a catch or finally block
 lost its message although a try around it handles it

---
 src/jsiUtils.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 704bb71..5d0e7d6 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -209,8 +209,13 @@ Jsi_RC Jsi_LogMsg(Jsi_Interp *interp, Jsi_PkgOpts* popts, uint code, const char
         if (interp->framePtr->level > 1 && !fp->tryDepth)
             jsi_DumpStackTrace(interp);
 
-        if ((fp->tryDepth - fp->withDepth)>0 && interp->inParse<=0 
-            && (!interp->tryList || !(interp->tryList->inCatch|interp->tryList->inFinal))) { 
+        /* A try whose catch or finally is running does not handle the error, but one around it does. */
+        int tryCnt = fp->tryDepth - fp->withDepth;
+        jsi_TryList *tl = interp->tryList;
+        for (; tl; tl = tl->next)
+            if (tl->type == jsi_TL_TRY && (tl->inCatch|tl->inFinal))
+                tryCnt--;
+        if (tryCnt>0 && interp->inParse<=0) { 
             /* Should only do the first or traceback? */
             if (!interp->errMsgBuf[0]) {
                 
-- 
2.43.0


From 05b83c936141cb480dc48c70a6b653dab55fb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 006/192] fix: a finally block that jumps left the stack
 unbalanced and hid a repeated error

---
 src/jsiEval.c | 15 ++++++++++++++-
 src/jsiInt.h  |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index e7ff465..4846e04 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1777,8 +1777,8 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 break;
             }
             case OP_JMPPOP: 
-                jsiPop(interp, ((jsi_JmpPopInfo *)ip->data)->topop);
             case OP_JMP: {
+                int topop = (ip->op == OP_JMPPOP ? ((jsi_JmpPopInfo *)ip->data)->topop : 0);
                 int off = (ip->op == OP_JMP ? (uintptr_t)ip->data - 1
                             : (uintptr_t)((jsi_JmpPopInfo *)ip->data)->off - 1);
 
@@ -1795,6 +1795,11 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                         if (ip >= trylist->d.td.tstart && ip < trylist->d.td.cend) {
                             trylist->d.td.last_op = jsi_LOP_JMP;
                             trylist->d.td.ld.tojmp = tojmp;
+                            /* drop what the try block left: the finally block may end in another jump. */
+                            int tpop = fp->Sp - trylist->d.td.tsp;
+                            jsiPop(interp, tpop);
+                            trylist->d.td.jmppop = (topop>tpop?topop-tpop:0);
+                            topop = 0;
                             
                             ip = trylist->d.td.fstart - 1;
                             off = 0;
@@ -1812,6 +1817,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                     }
                 }
                 
+                jsiPop(interp, topop);
                 ip += off;
                 break;
             }
@@ -2005,6 +2011,7 @@ undef_eval:
                 trylist->inFinal = 1;
                 if (trylist->d.td.last_op == jsi_LOP_THROW && !trylist->pending) {
                     /* keep the exception: the finally block may throw and catch others */
+                    interp->curIpLastError = NULL;
                     trylist->pending = Jsi_ValueNew1(interp);
                     if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
                         Jsi_ValueCopy(interp, trylist->pending, ps->last_exception);
@@ -2024,6 +2031,7 @@ undef_eval:
                 trylist->inFinal = 0;
                 int last_op = trylist->d.td.last_op;
                 jsi_OpCode *tojmp = (last_op == jsi_LOP_JMP ? trylist->d.td.ld.tojmp : 0);
+                int topop = (last_op == jsi_LOP_JMP ? trylist->d.td.jmppop : 0);
                 
                 if (last_op == jsi_LOP_THROW && trylist->pending)
                     Jsi_ValueDup2(interp, &ps->last_exception, trylist->pending);
@@ -2048,6 +2056,10 @@ undef_eval:
                             if (ip >= trylist->d.td.tstart && ip < trylist->d.td.cend) {
                                 trylist->d.td.last_op = jsi_LOP_JMP;
                                 trylist->d.td.ld.tojmp = tojmp;
+                                int tpop = fp->Sp - trylist->d.td.tsp;
+                                jsiPop(interp, tpop);
+                                trylist->d.td.jmppop = (topop>tpop?topop-tpop:0);
+                                topop = 0;
                                 
                                 ip = trylist->d.td.fstart - 1;
                                 break;
@@ -2063,6 +2075,7 @@ undef_eval:
                             pop_try(trylist);
                         }
                     }
+                    jsiPop(interp, topop);
                 }
                 break;
             }
diff --git a/src/jsiInt.h b/src/jsiInt.h
index dbe3af7..3bf812e 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1069,6 +1069,7 @@ typedef struct jsi_TryList {
             union {
                 jsi_OpCode *tojmp;
             } ld;                   /* jmp out of catch (target)*/
+            int jmppop;                             /* ... and what to pop when it is taken */
         } td;
         struct {                    /* with data */
             jsi_OpCode *wstart;         /* with start */
-- 
2.43.0


From a165566f5ca6d89e9d9cb6ca5280688f0289f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 007/192] fix: instanceof missed a prototype set by
 setPrototypeOf

---
 src/jsiValue.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 81c97c5..7e97e53 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1833,6 +1833,8 @@ int Jsi_ValueInstanceOf( Jsi_Interp *interp, Jsi_Value* v1, Jsi_Value* v2)
             return 1;
         if (sproto->vt != JSI_VT_OBJECT)
             return 0;
+        if (proto->vt == JSI_VT_OBJECT && sproto->d.obj == proto->d.obj)
+            return 1;
         sproto = sproto->d.obj->__proto__;
     }
     return 0;
-- 
2.43.0


From e77bd8811296ac794330178b6d02d6d7e164c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 008/192] fix: ++ and -- of an inherited property changed the
 prototype

---
 src/jsiEval.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 4846e04..b3d7234 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -947,6 +947,8 @@ static void jsiPushFunc(jsi_Pstate *ps, jsi_OpCode *ip, jsi_ScopeChain *scope, J
     jsiPush(interp,1);
 }
 
+static Jsi_RC jsi_ValueObjKeyAssign(Jsi_Interp *interp, Jsi_Value *target, Jsi_Value *keyval, Jsi_Value *value, int flag);
+
 static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *idx, jsi_OpCode *ip,  jsi_OpCode *end,
     Jsi_Value *currentScope)
 {
@@ -1008,6 +1010,20 @@ static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *id
         }
     }
     else {
+        if (!right_val && vp != resPtr && !vp->f.bits.isgetter && ip+1<end && (ip[1].op == OP_INC || ip[1].op == OP_DEC)
+            && src->vt == JSI_VT_OBJECT) {
+            /* ++/-- of an inherited property updates the object, not its prototype. */
+            const char *keyStr = Jsi_ValueToString(interp, idx, NULL);
+            int isKey = (idx->vt == JSI_VT_STRING);
+            if (keyStr && Jsi_ValueObjLookup(interp, src, keyStr, isKey) != vp) {
+                rc = jsi_ValueObjKeyAssign(interp, src, idx, vp, 0);
+                if (rc != JSI_OK)
+                    return rc;
+                Jsi_Value *own = Jsi_ValueObjLookup(interp, src, keyStr, isKey);
+                if (own)
+                    vp = own;
+            }
+        }
         Jsi_IncrRefCount(interp, vp);
         if (right_val || vp->f.bits.readonly) {
             if (vp == resPtr && (res.vt == JSI_VT_OBJECT || res.vt == JSI_VT_STRING))  // TODO:*** Undo using ValueCopy. ***
-- 
2.43.0


From 0c429cd5867b36dcfa3cd4d696da306740a9294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 009/192] fix: filter and flat must copy elements, not share
 them with the source array

---
 src/jsiArray.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index c650f8e..ddb740f 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -254,8 +254,11 @@ static Jsi_RC jsi_ArrayFlatSub(Jsi_Interp *interp, Jsi_Obj* nobj, Jsi_Value *arr
         Jsi_Value *t = Jsi_ValueArrayIndex(interp, arr, i);
         if (t && depth>0 && Jsi_ValueIsArray(interp, t))
             rc = jsi_ArrayFlatSub(interp, nobj, t , depth-1);
-        else if (t && t->vt != JSI_VT_UNDEF)
+        else if (t && t->vt != JSI_VT_UNDEF) {
+            t = Jsi_ValueDup(interp, t);
             Jsi_ObjArrayAdd(interp, nobj, t);
+            Jsi_DecrRefCount(interp, t);
+        }
         if ((uint)(++n + clen)>interp->maxArrayList)
             rc = Jsi_LogError("array size exceeded");
     }
@@ -452,8 +455,7 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         }
         if (fval) {
             if (Jsi_ValueIsArray(interp, _this) && _this->d.obj == obj && i<(int)obj->arrCnt && obj->arr[i]) {
-                nobj->arr[n] = obj->arr[i];
-                Jsi_IncrRefCount(interp, nobj->arr[n]);
+                nobj->arr[n] = Jsi_ValueDup(interp, obj->arr[i]);
             } else
                 nobj->arr[n] = Jsi_ValueDup(interp, nrPtr);
             n++;
-- 
2.43.0


From b91a4b28e18b38267b73ce4a547a0e082c06964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 010/192] fix: assigning a callback's parameter must not write
 into the iterated array

---
 src/jsiArray.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index ddb740f..caafb47 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -382,10 +382,11 @@ static Jsi_RC jsi_ArrayMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         maa = 3;
     for (i = 0; i < curlen && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
-        vobjs[0] = obj->arr[i];
+        vobjs[0] = Jsi_ValueDup(interp, obj->arr[i]);
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
+        Jsi_DecrRefCount(interp, vobjs[0]);
         Jsi_IncrRefCount(interp, vpargs);
         Jsi_IncrRefCount(interp, vobjs[2]);
         nobj->arr[i] = Jsi_ValueNew1(interp);
@@ -440,11 +441,12 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         maa = 3;
     for (i = 0; i < curlen; i++) {
         if (!obj->arr[i]) continue;
-        vobjs[0] = obj->arr[i];
+        vobjs[0] = Jsi_ValueDup(interp, obj->arr[i]);
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         Jsi_IncrRefCount(interp, vobjs[2]);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
+        Jsi_DecrRefCount(interp, vobjs[0]);
         Jsi_IncrRefCount(interp, vpargs);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, sthis);
         Jsi_DecrRefCount(interp, vpargs);
@@ -528,10 +530,11 @@ static Jsi_RC jsi_ArrayForeachCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         maa = 3;
     for (i = 0; i < obj->arrCnt && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
-        vobjs[0] = obj->arr[i];
+        vobjs[0] = Jsi_ValueDup(interp, obj->arr[i]);
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
+        Jsi_DecrRefCount(interp, vobjs[0]);
         Jsi_IncrRefCount(interp, vpargs);
         Jsi_IncrRefCount(interp, vobjs[2]);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, ret, sthis);
@@ -573,10 +576,11 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         maa = 3;
     for (i = 0; i < obj->arrCnt && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
-        vobjs[0] = obj->arr[i];
+        vobjs[0] = Jsi_ValueDup(interp, obj->arr[i]);
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
+        Jsi_DecrRefCount(interp, vobjs[0]);
         Jsi_IncrRefCount(interp, vobjs[2]);
         Jsi_IncrRefCount(interp, vpargs);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, sthis);
@@ -637,15 +641,17 @@ static Jsi_RC jsi_ArrayReduceSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
             continue;
         }
             
-        vobjs[0] = ini;
-        vobjs[1] = obj->arr[i];
+        vobjs[0] = Jsi_ValueDup(interp, ini);
+        vobjs[1] = Jsi_ValueDup(interp, obj->arr[i]);
         vobjs[2] = (maa>2?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[3] = Jsi_ValueNewObj(interp, obj);
         Jsi_IncrRefCount(interp, vobjs[3]);
         vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
+        Jsi_DecrRefCount(interp, vobjs[0]);
         Jsi_IncrRefCount(interp, vpargs);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, _this);
         Jsi_DecrRefCount(interp, vpargs);
+        Jsi_DecrRefCount(interp, vobjs[1]);
         Jsi_DecrRefCount(interp, vobjs[3]);
         if (rc != JSI_OK)
             break;
@@ -980,7 +986,7 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
         else {
             Jsi_Value *vv[2] = {v1, v2};
             Jsi_Value *retP = Jsi_ValueNew1(interp);
-            Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vv, 2, 0));
+            Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vv, 2, 1));
             Jsi_IncrRefCount(interp, vpargs);
             rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
             Jsi_DecrRefCount(interp, vpargs);
-- 
2.43.0


From 1b1675f3513c90b530bf1753c580d246b68789a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 011/192] fix: every() of an empty array is true

---
 src/jsiArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index caafb47..44dbb44 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -567,7 +567,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     Jsi_IncrRefCount(interp, _this);
     obj = _this->d.obj;
     Jsi_ObjListifyArray(interp, obj);
-    int fval = 0;
+    int fval = (op == 3);
     Jsi_Value *nrPtr = Jsi_ValueNew1(interp);
     Jsi_Value *vobjs[3];
     Jsi_Func *fptr = func->d.obj->d.fobj->func;
-- 
2.43.0


From e0832ddbacfbf5002d9219ae235e6fc322889f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 012/192] fix: sort must honour the sign of a fractional
 comparison result

---
 src/jsiArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 44dbb44..d23b5c7 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -993,7 +993,7 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
             if (rc == JSI_OK) {
                 Jsi_Number d = 0;
                 if (Jsi_ValueGetNumber(interp, retP, &d) == JSI_OK)
-                    rc = -(int)d;
+                    rc = (d > 0 ? -1 : (d < 0 ? 1 : 0));
                 else {
                     if (!si->errCnt)
                         Jsi_LogWarn("invalid function return");
-- 
2.43.0


From 75d2f5a902538d81ee682ea8bad5a0e904de5cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 013/192] fix: sort with unique left stale element pointers
 behind the shortened array

---
 src/jsiArray.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index d23b5c7..38151ec 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -1111,8 +1111,10 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
             if (diff) {
                 n++;
-                if (n!=i)
+                if (n!=i) {
                     obj->arr[n] = obj->arr[i];
+                    obj->arr[i] = NULL;
+                }
             } else {
                 dupCnt++;
                 if (obj->arr[i])
-- 
2.43.0


From 26e02a4b5436c630a0f35cb4beb59c8559e18c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 014/192] fix: an exception thrown by a sort comparison
 function was swallowed

---
 src/jsiArray.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 38151ec..3bc6911 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -945,6 +945,7 @@ typedef struct {
     bool unique;
     Jsi_Value *compare;
     int errCnt;
+    Jsi_RC rc;
 } SortInfo;
 
 static const char *sortArrayStrs[] = {"default", "desc", "dict", "nocase", 0};
@@ -988,9 +989,13 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
             Jsi_Value *retP = Jsi_ValueNew1(interp);
             Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vv, 2, 1));
             Jsi_IncrRefCount(interp, vpargs);
-            rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
+            rc = si->rc;
+            if (rc == JSI_OK)
+                rc = si->rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
             Jsi_DecrRefCount(interp, vpargs);
-            if (rc == JSI_OK) {
+            if (rc != JSI_OK)
+                rc = 0;
+            else {
                 Jsi_Number d = 0;
                 if (Jsi_ValueGetNumber(interp, retP, &d) == JSI_OK)
                     rc = (d > 0 ? -1 : (d < 0 ? 1 : 0));
@@ -1094,7 +1099,7 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
         return JSI_ERROR;
     }
-    if (si.unique) {
+    if (si.unique && si.rc == JSI_OK) {
         int n, diff = 1, dupCnt=0;
         for (n=0, i=1; i<(int)obj->arrCnt; i++) {
             if (obj->arr[n] == obj->arr[i])
@@ -1133,7 +1138,7 @@ done:
     v = Jsi_ValueMakeObject(interp, NULL, obj);
     Jsi_ValueReplace(interp, ret, v);
     obj->modifying = 0;
-    return JSI_OK;
+    return si.rc;
 }
 
 static Jsi_RC jsi_ArraySpliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,Jsi_Value **ret, Jsi_Func *funcPtr)
-- 
2.43.0


From ae71e7648ed1c4a8fea4b3b322e802232a439964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 015/192] fix: a value thrown through a native callback left
 its text as the message of the next error

---
 src/jsiEval.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index b3d7234..047e2ed 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2001,10 +2001,9 @@ undef_eval:
                         Jsi_Value *ple = ps->last_exception;
                         Jsi_ValueCopy(interp, excpt, ple);
                         Jsi_ValueReset(interp, &ps->last_exception);
-                    } else {
+                    } else
                         Jsi_ValueMakeStringDup(interp, &excpt, interp->errMsgBuf);
-                        interp->errMsgBuf[0] = 0;
-                    }
+                    interp->errMsgBuf[0] = 0;
                     Jsi_ValueInsert(interp, currentScope, (char*)ip->data, excpt, JSI_OM_DONTENUM);
                     Jsi_DecrRefCount(interp, excpt);
                     context_id = ps->_context_id++;
@@ -2032,10 +2031,9 @@ undef_eval:
                     if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
                         Jsi_ValueCopy(interp, trylist->pending, ps->last_exception);
                         Jsi_ValueReset(interp, &ps->last_exception);
-                    } else {
+                    } else
                         Jsi_ValueMakeStringDup(interp, &trylist->pending, interp->errMsgBuf);
-                        interp->errMsgBuf[0] = 0;
-                    }
+                    interp->errMsgBuf[0] = 0;
                 }
                 JSI_RESTORE_SCOPE();
                 break;
-- 
2.43.0


From 2f6fd2d4ea414350f0cfd82762c4dfccb618fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 016/192] fix: ++ of a plain property called the setter of an
 accessor read earlier

---
 src/jsiEval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 047e2ed..a73ed65 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1299,6 +1299,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
             }
             case OP_SUBSCRIPT: {
                 jsiVarDeref(interp,2);
+                interp->hPtrGet = NULL;
                 rc = jsiEvalSubscript(interp, _jsi_TOQ, _jsi_TOP, ip, end, currentScope);
                 jsiPop(interp, 1);
                 hPtrGet = interp->hPtrGet;
-- 
2.43.0


From 0ad00359570851095514d49377a6135a472f79c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 017/192] fix: Object.assign/merge/create/values shared
 property values with their source

---
 src/jsiObj.c   |  7 +++++--
 src/jsiProto.c | 17 +++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/jsiObj.c b/src/jsiObj.c
index 63f8e52..637c3be 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -128,9 +128,12 @@ static Jsi_RC ObjListifyValuesCallback(Jsi_Tree *tree, Jsi_TreeEntry *hPtr, void
     Jsi_Interp *interp = tree->opts.interp;
     Jsi_Obj *obj = (Jsi_Obj*)data;
     Jsi_Value *val = (Jsi_Value*)Jsi_TreeValueGet(hPtr);
-    if (!val || Jsi_ObjArrayAdd(interp, obj, val) != JSI_OK) 
+    if (!val)
         return JSI_ERROR;
-    return JSI_OK;
+    val = Jsi_ValueDup(interp, val); // The array must not share the value with the object.
+    Jsi_RC rc = Jsi_ObjArrayAdd(interp, obj, val);
+    Jsi_DecrRefCount(interp, val);
+    return rc;
 }
 
 Jsi_RC Jsi_ObjGetValues(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *outVal, Jsi_Value *_this)
diff --git a/src/jsiProto.c b/src/jsiProto.c
index 1acb3aa..50c137e 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -412,6 +412,15 @@ static Jsi_RC ObjectKeysCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     return rc;
 }
 
+// Insert a copy of v, so that objects do not share the value.
+static Jsi_RC ObjInsertCopy(Jsi_Interp *interp, Jsi_Obj *obj, const char *key, Jsi_Value *v)
+{
+    Jsi_Value *nv = Jsi_ValueDup(interp, v);
+    Jsi_RC rc = Jsi_ObjInsert(interp, obj, key, nv, 0);
+    Jsi_DecrRefCount(interp, nv);
+    return rc;
+}
+
 static Jsi_RC ObjectValuesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -510,14 +519,14 @@ static Jsi_RC ObjectMergeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
         if (v && v->f.bits.dontenum == 0)
-            rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+            rc = ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
     }
     Jsi_TreeSearchDone(&search);
     for (tPtr = Jsi_TreeSearchFirst(v->d.obj->tree, &search, 0, NULL);
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
         if (v && v->f.bits.dontenum == 0)
-            rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+            rc = ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
     }
     Jsi_TreeSearchDone(&search);
 
@@ -548,7 +557,7 @@ static Jsi_RC ObjectAssignCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v2 = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
             if (v2 && v2->f.bits.dontenum == 0)
-                rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2, 0);
+                rc = ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2);
         }
         Jsi_TreeSearchDone(&search);
     }
@@ -655,7 +664,7 @@ static Jsi_RC ObjectCreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
             if (v && v->f.bits.dontenum == 0)
-                rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+                rc = ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
         }
         Jsi_TreeSearchDone(&search);
     }
-- 
2.43.0


From 8787e88c3891989ad18a8c5af6ca5b73740517f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 018/192] fix: a value read from a frozen object stayed
 read-only in its copies

---
 src/jsiValue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 7e97e53..3d5772e 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -291,6 +291,7 @@ static void jsi_ValueCopyMove(Jsi_Interp *interp, Jsi_Value *to, Jsi_Value *from
         SIGINIT(from, VALUE);
         from->refCnt = ocnt;
     }
+    to->f.bits.frozen = 0; // This belongs to the property, not to the copied value.
 }
 
 void Jsi_ValueMove(Jsi_Interp *interp, Jsi_Value *to, Jsi_Value *from )  {
-- 
2.43.0


From 778f9d707c6ed29254a37fa90e18aca2612c710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 019/192] fix: "".substr(-1) looped forever

---
 src/jsiChar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiChar.c b/src/jsiChar.c
index 25457a0..c2cfc5b 100644
--- a/src/jsiChar.c
+++ b/src/jsiChar.c
@@ -86,6 +86,7 @@ empty:
     
     if (alen<0)
         alen = Jsi_Strlen(a);
+    if (alen <= 0) goto empty;
     while (start < 0) start += alen;
     if (start >= alen) goto empty;
     
-- 
2.43.0


From 3d7ecd45ca616a7c26ef3effe2fa7f83dbe2df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 020/192] fix: substr, substring and charAt cut UTF-8 text in
 the wrong place

---
 src/jsiUtf8.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index c7e3b05..4e6a315 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -103,7 +103,7 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
     ustart = n;
     ulen = len;
 #else
-    int m, e, l;
+    int m;
     ulen = ustart = 0;
     m = Jsi_UtfIndexToOffset(str, n);
     if (m>=0) {
@@ -111,13 +111,8 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
             ustart = m;
             ulen = Jsi_Strlen(str+m);
         } else {
-            e = Jsi_UtfIndexToOffset(str+m, len);
-            l = Jsi_NumUtfBytes(str[m]);
-            if (l<0) l = 1;
-            if (e>=0 && l>0) {
-                ustart = m;
-                ulen = e+l-1;
-            }
+            ustart = m;
+            ulen = Jsi_UtfIndexToOffset(str+m, len);
         }
     }
 #endif
-- 
2.43.0


From 2cdd3cf500b5a6f9c08cf6caa216d5ad6516525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 021/192] fix: case conversion dropped a multi-byte character
 at the end of the string

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index c8bd24d..bf50999 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -401,7 +401,7 @@ char *jsi_utf_tocase(const char *cp, int blen, int upper, Jsi_DString *dsPtr)
             int32_t c;
             Jsi_UtfToUniChar(cp, &c);
             int n = Jsi_UniCharToUtf(c, unibuf);
-            if ((m+n)>=blen)
+            if ((m+n)>blen)
                 break;
             unibuf[n] = 0;
             cp += n;
-- 
2.43.0


From 73ebedfb6f43de1715b500f8413c6b490f6aa023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 022/192] fix: indexOf, lastIndexOf, search and slice counted
 bytes where positions are characters

---
 src/jsiString.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index bf50999..d2adaa8 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -249,7 +249,11 @@ static Jsi_RC StringIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (istart < 0) istart = 0;
     }
 
+    // Positions count characters, not bytes.
+    istart = (istart>sLen ? bLen+1 : Jsi_UtfIndexToOffset(v, istart));
     int r = Jsi_Strpos(v, istart, vseq, 0);
+    if (r>0)
+        r = Jsi_NumUtfChars(v, r);
     Jsi_ValueMakeNumber(interp, ret, r);
 
     return JSI_OK;
@@ -509,7 +513,11 @@ static Jsi_RC StringLastIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
         if (istart < 0) istart = 0;
     }
 
+    // Positions count characters, not bytes.
+    istart = (istart>sLen ? bLen+1 : Jsi_UtfIndexToOffset(v, istart));
     int r = Jsi_Strrpos(v, istart, vseq, 0);
+    if (r>0)
+        r = Jsi_NumUtfChars(v, r);
     Jsi_ValueMakeNumber(interp, ret, r);
 
     return JSI_OK;;
@@ -555,7 +563,7 @@ static Jsi_RC StringSliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 
     Jsi_Value *start = Jsi_ValueArrayIndex(interp, args, skip);
     Jsi_Value *end = Jsi_ValueArrayIndex(interp, args, 1+skip);
-    int istart, iend, len = Jsi_Strlen(vstr);
+    int istart, iend, len = sLen;
 
     if (Jsi_GetIntFromValue(interp, start, &istart)) {
         return JSI_ERROR;
@@ -899,7 +907,7 @@ static Jsi_RC StringSearchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         char *ce, *cp = Jsi_ValueString(interp, seq, NULL);
         int n = -1;
         if ((ce = Jsi_Strstr(source_str, cp))) {
-            n = (ce-source_str);
+            n = (ce==source_str ? 0 : Jsi_NumUtfChars(source_str, ce-source_str));
         }
         Jsi_ValueMakeNumber(interp, ret, n);
         return JSI_OK;
@@ -927,7 +935,7 @@ static Jsi_RC StringSearchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         }
 
     }
-    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos[0].rm_so);
+    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)Jsi_NumUtfChars(v, pos[0].rm_so));
     return JSI_OK;
 }
 
-- 
2.43.0


From ffc1ab2cbc73d5735189586f1b897495127ada8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 023/192] fix: replace(string, function) passed the whole text
 to the function instead of the match

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index d2adaa8..0f88594 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -699,7 +699,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 }
                 Jsi_DSAppendLen(&dStr, replace_str, replace_len);
             } else {
-                Jsi_Value *inStr = Jsi_ValueNewStringDup(interp, source_str);
+                Jsi_Value *inStr = Jsi_ValueNewStringDup(interp, cp);
                 Jsi_IncrRefCount(interp, inStr);
                 Jsi_RC rc = Jsi_FunctionInvokeString(interp, repVal, inStr, &dStr, _this);
                 if (Jsi_InterpGone(interp))
-- 
2.43.0


From 83f08ac839a8ab8ec5ff6b1897fc46f013f60f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 024/192] fix: indexing a string used the UTF-8 flags of the
 string previously in its slot

---
 src/jsiValue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 3d5772e..c629af7 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1647,6 +1647,7 @@ Jsi_Value* Jsi_ValueMakeStringKey(Jsi_Interp *interp, Jsi_Value **vPtr, const ch
     else
         Jsi_ValueReset(interp, vPtr);
     v->vt = JSI_VT_STRING;
+    v->d.s.flags = 0; // Or indexing trusts what was known of the previous string.
     v->d.s.str = (char*)Jsi_KeyAdd(interp,s);
     v->d.s.len = Jsi_Strlen(s);
    // v->f.bits.isstrkey = 1;
-- 
2.43.0


From 7e017d845c582a2695c09a1cc60e6a85a13a91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 025/192] fix: JSON.parse keeps an escaped slash

---
 src/jsiJSON.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index ff6a0da..b133f1c 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -20,6 +20,7 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                 case 't': *dp++ = '\t'; break;
                 case '\"': *dp++ = '\"'; break;
                 case '\\': *dp++ = '\\'; break;
+                case '/': *dp++ = '/'; break;
                 case 'u': 
                     if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
                         dp += ulen;
-- 
2.43.0


From 35f40d0546b947702cb8c45df6608dbc56b02dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 026/192] fix: JSON object keys are unescaped when parsed and
 escaped when written

---
 src/jsiJSON.c  | 2 +-
 src/jsiUtils.c | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index b133f1c..d9e182f 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -133,7 +133,7 @@ jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, u
             nv = jsonGen1Value(interp, p, js, i, &i, 0);
         Jsi_DSInit(&dStr);
         if (t)
-            Jsi_DSAppendLen(&dStr, t, len);
+            jsonNewDString(interp, &dStr, t, len);
         Jsi_ObjInsert(interp, obj, Jsi_DSValue(&dStr), nv, 0);
         Jsi_DSFree(&dStr);
     }
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 5d0e7d6..78cb32e 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -698,7 +698,12 @@ static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v
     if (((ow->quote&JSI_OUTPUT_JSON) == 0 || (ow->quote&JSI_JSON_STRICT) == 0) && Jsi_StrIsAlnum(key)
         && !Jsi_HashEntryFind(interp->lexkeyTbl, key))
         Jsi_DSAppend(dStr, key, NULL);
-    else
+    else if (ow->quote) {
+        Jsi_Value *kv = Jsi_ValueNewStringDup(interp, key);
+        Jsi_IncrRefCount(interp, kv);
+        jsiValueGetString(interp, kv, dStr, ow);
+        Jsi_DecrRefCount(interp, kv);
+    } else
         /* JSON/spaces, etc requires quoting the name. */
         Jsi_DSAppend(dStr, "\"", key, "\"", NULL);
     Jsi_DSAppend(dStr, ":", NULL);
-- 
2.43.0


From 00089adc7d75777cd9fbbed46002e03c45449124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 027/192] fix: JSON reads and writes characters beyond the BMP
 as surrogate pairs

---
 src/jsiJSON.c  | 27 +++++++++++++++++++++++++--
 src/jsiUtf8.c  |  7 ++++++-
 src/jsiUtils.c |  2 +-
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index d9e182f..f04e731 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -4,6 +4,26 @@
 #include "jsiInt.h"
 #endif
 
+// Decode a \uD8xx\uDCxx pair to the UTF-8 of the character it stands for.  Returns 0 if not a pair.
+static int jsonSurrogatePair(const char *cp, char *dp)
+{
+    uint i, hi = 0, lo = 0;
+    if (cp[6] != '\\' || cp[7] != 'u')
+        return 0;
+    for (i=2; i<6; i++) {
+        hi = (hi<<4) | (uint)jsi_fromHexChar(cp[i]);
+        lo = (lo<<4) | (uint)jsi_fromHexChar(cp[i+6]);
+    }
+    if ((hi&0xFC00) != 0xD800 || (lo&0xFC00) != 0xDC00)
+        return 0;
+    uint uc = 0x10000 + ((hi&0x3FF)<<10) + (lo&0x3FF);
+    dp[0] = 0xF0 | (uc >> 18);
+    dp[1] = 0x80 | ((uc >> 12) & 0x3F);
+    dp[2] = 0x80 | ((uc >> 6) & 0x3F);
+    dp[3] = 0x80 | (uc & 0x3F);
+    return 4;
+}
+
 static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* str, int len)
 {
     char buf[JSI_MAX_NUMBER_STRING], *dp = buf;
@@ -22,7 +42,10 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                 case '\\': *dp++ = '\\'; break;
                 case '/': *dp++ = '/'; break;
                 case 'u': 
-                    if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
+                    if ((cp-str)+12<=len && (ulen=jsonSurrogatePair(cp, dp))) {
+                        dp += ulen;
+                        cp += 10;
+                    } else if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
                         dp += ulen;
                         cp += 4;
                     } else {                    
@@ -407,7 +430,7 @@ Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
     int i = 0;
     if (len<0)
         len = Jsi_Strlen(str);
-    char cbuf[10];
+    char cbuf[13];
     Jsi_DSAppend(dsPtr,"\"",NULL);
     while (*cp && i++<len) {
         if (*cp == '\\' /* || *cp == '/' */ || *cp == '\"') {
diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index 4e6a315..61c17cf 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -213,7 +213,7 @@ uint Jsi_UtfToUniChar(const char *utf, Jsi_UniChar *uc)
 #endif
 }
 
-// Encode UTF number to \uNNNN form.  Returns size.
+// Encode UTF number to \uNNNN form, or a surrogate pair: outstr needs 13 bytes.  Returns size.
 uint Jsi_UtfEncode(const char *innum, char *outstr) {
     int32_t ival;
     int ilen;
@@ -221,6 +221,11 @@ uint Jsi_UtfEncode(const char *innum, char *outstr) {
     outstr[1] = 'u';
     outstr[6] = 0;
     ilen = Jsi_UtfToUniChar((char*)innum, &ival);
+    if (ival > 0xFFFF) {
+        ival -= 0x10000;
+        snprintf(outstr, 13, "\\u%04x\\u%04x", 0xD800|((ival>>10)&0x3FF), 0xDC00|(ival&0x3FF));
+        return ilen;
+    }
     outstr[2] = jsi_toHexChar((ival&0xF000)>>12);
     outstr[3] = jsi_toHexChar((ival&0xF00)>>8);
     outstr[4] = jsi_toHexChar((ival&0xF0)>>4);
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 78cb32e..8fe5434 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -811,7 +811,7 @@ outstr:
                 } else if (isprint(*str) || !isjson)
                     Jsi_DSAppendLen(dStr,str, 1);
                 else {
-                    char ubuf[10];
+                    char ubuf[13];
                     int l = Jsi_UtfEncode(str, ubuf);
                     Jsi_DSAppend(dStr,ubuf, NULL);
                     str += l-1;
-- 
2.43.0


From 8c1cac4b0c94a77e73b04f9c7e18812589683203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:53 +0000
Subject: [PATCH 028/192] fix: JSON.stringify writes valid text for undefined
 members and elements, and keeps subnormal numbers

---
 src/jsiUtils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 8fe5434..01ea700 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -688,9 +688,9 @@ static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v
 {
     Jsi_DString *dStr = ow->dStr;
     int isfmt = ow->quote&JSI_JSON_FORMAT;
-    ow->subcnt++;
     if ((ow->quote&JSI_OUTPUT_JSON) && v && v->vt == JSI_VT_UNDEF)
         return JSI_OK;
+    ow->subcnt++;
     if (ow->subcnt>1)
         Jsi_DSAppend(dStr, ", ", NULL);
     if (isfmt)
@@ -761,7 +761,7 @@ static Jsi_RC jsiValueGetString(Jsi_Interp *interp, Jsi_Value* v, Jsi_DString *d
         case JSI_VT_NUMBER:
             num = v->d.num;
 outnum:
-            if (isjson && !Jsi_NumberIsNormal(num)) {
+            if (isjson && !Jsi_NumberIsNormal(num) && !Jsi_NumberIsSubnormal(num)) {
                 Jsi_DSAppend(dStr, "null", NULL);
             } else if (Jsi_NumberIsInteger(num)) {
                 Jsi_NumberItoA10((Jsi_Wide)num, buf, sizeof(buf));
@@ -866,7 +866,9 @@ outstr:
                     nv = Jsi_ValueArrayIndex(interp, v, i);
                     if (i) Jsi_DSAppend(dStr,", ", NULL);
                     owPtr->depth++;
-                    if (nv) {
+                    if (isjson && (quote&JSI_JSON_STRICT) == JSI_JSON_STRICT && (!nv || nv->vt == JSI_VT_UNDEF))
+                        Jsi_DSAppend(dStr, "null", NULL);
+                    else if (nv) {
                         if (jsiValueGetString(interp, nv, dStr, owPtr) != JSI_OK) {
                             owPtr->depth--;
                             return JSI_ERROR;
-- 
2.43.0


From 85548bf22313182b3046a0a31a2b2f930aa52196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 029/192] fix: JSON.parse refuses nesting deeper than maxDepth
 instead of exhausting the stack; text is freed when stringify fails

---
 src/jsiJSON.c  | 24 ++++++++++++++++++++++++
 src/jsiUtils.c |  4 +++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index f04e731..15acc0c 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -191,6 +191,26 @@ jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, ui
     return v;
 }
 
+// Deepest nesting of arrays and objects in a text accepted by Jsi_JsonParse.
+static int jsonNesting(const char *js)
+{
+    int depth = 0, max = 0;
+    for (; *js; js++) {
+        if (*js == '\"') {
+            for (js++; *js && *js != '\"'; js++)
+                if (*js == '\\' && js[1])
+                    js++;
+            if (!*js)
+                break;
+        } else if (*js == '[' || *js == '{') {
+            if (++depth > max)
+                max = depth;
+        } else if (*js == ']' || *js == '}')
+            depth--;
+    }
+    return max;
+}
+
 Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int flags)
 {
     uint i = 0, r;
@@ -234,6 +254,10 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
     }
     if (!ret)
         goto done;
+    if (interp && interp->maxDepth>0 && jsonNesting(js) > interp->maxDepth) {
+        result = Jsi_LogError("JSON nesting is too deep");
+        goto done;
+    }
     tok = p->tokens;
     if (tok->size<=0) {
         if (!*ret)
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 01ea700..a3bfcbd 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -922,8 +922,10 @@ const char* jsiValueGetDString(Jsi_Interp *interp, Jsi_Value* v, Jsi_DString *dS
     ow.depth = 0;
     ow.dStr = dStr;
     ow.indent = indent;
-    if (jsiValueGetString(interp, v, dStr, &ow) != JSI_OK)
+    if (jsiValueGetString(interp, v, dStr, &ow) != JSI_OK) {
+        Jsi_DSFree(dStr);
         return NULL;
+    }
     return Jsi_DSValue(dStr);
 }
 
-- 
2.43.0


From 5f851cd09466e07aa72edc1ae40ab3c7cb140aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 030/192] fix: JSON strict mode took unquoted words starting
 with t, f or n as 0, and JSON.check refused a lone value that JSON.parse
 accepts

---
 src/jsmn.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/jsmn.c b/src/jsmn.c
index 9ab6024..048a888 100644
--- a/src/jsmn.c
+++ b/src/jsmn.c
@@ -61,6 +61,27 @@ static void jsmn_fill_token(Jsi_JsonTok *token, Jsi_JsonTypeEnum type,
     token->size = 0;
 }
 
+/**
+ * In strict mode a primitive is true, false, null or a decimal number.
+ */
+static int jsmn_strict_primitive(const char *s, int len) {
+    int n = 0;
+    if (len == 4 && (!strncmp(s, "true", 4) || !strncmp(s, "null", 4))) return 1;
+    if (len == 5 && !strncmp(s, "false", 5)) return 1;
+    if (n<len && s[n] == '-') n++;
+    if (n>=len || !isdigit((unsigned char)s[n])) return 0;
+    while (n<len && isdigit((unsigned char)s[n])) n++;
+    if (n<len && s[n] == '.')
+        for (n++; n<len && isdigit((unsigned char)s[n]); n++);
+    if (n<len && (s[n] == 'e' || s[n] == 'E')) {
+        n++;
+        if (n<len && (s[n] == '+' || s[n] == '-')) n++;
+        if (n>=len || !isdigit((unsigned char)s[n])) return 0;
+        while (n<len && isdigit((unsigned char)s[n])) n++;
+    }
+    return (n == len);
+}
+
 /**
  * Fills next available token with JSON primitive.
  */
@@ -84,13 +105,17 @@ static Jsi_JsonErrEnum Jsi_JsonParse_primitive(Jsi_JsonParser *parser, const cha
             return jsmn_error(parser,JSI_JSON_ERR_INVAL, "invalid char");
         }
     }
-    if (parser->strict) {
-        /* In strict mode primitive must be followed by a comma/object/array */
+    if (parser->strict && parser->toknext) {
+        /* In strict mode primitive, unless it is the whole text, must be followed by a comma/object/array */
         parser->pos = start;
         return jsmn_error(parser,JSI_JSON_ERR_PART, "expected comma/object/array");
     }
 
 found:
+    if (parser->strict && !jsmn_strict_primitive(js+start, parser->pos-start)) {
+        parser->pos = start;
+        return jsmn_error(parser,JSI_JSON_ERR_INVAL, "invalid value");
+    }
     token = jsmn_alloc_token(parser, &index);
     if (token == NULL) {
         parser->pos = start;
-- 
2.43.0


From 2ed66a51466a9290cbbd438567bfcc3b4a96d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 031/192] fix: Info.interp aborted when given another kind of
 user object

---
 src/jsiInterp.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 3ad7609..1970b85 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2327,8 +2327,7 @@ Jsi_RC jsi_InterpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         InterpObj *udf = NULL;
         if (v && v->vt == JSI_VT_OBJECT && v->d.obj->ot == JSI_OT_USEROBJ)
             udf = (InterpObj *)v->d.obj->d.uobj->data;
-        if (udf && udf->subinterp) {
-            SIGASSERT(udf, INTERPOBJ);
+        if (udf && udf->sig == JSI_SIG_INTERPOBJ && udf->subinterp) {
             sinterp = udf->subinterp;
         } else
             return Jsi_LogError("unknown interp");
-- 
2.43.0


From a7cbb1cf5a05aab8172e4e9e00cf18b3933790b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 032/192] fix: substr and substring overflowed an int on
 extreme start or end arguments

---
 src/jsiString.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 0f88594..ea6b6c6 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -106,6 +106,12 @@ bail:
     return rc;
 }
 
+// Index arguments far outside of any string are cut to a range where sums can not overflow.
+static int jsi_ClampIndex(Jsi_Number n)
+{
+    return (n >= 1e9 ? 1000000000 : (n > -1e9 ? (int)n : -1000000000));
+}
+
 static Jsi_RC StringSubstrCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -121,7 +127,7 @@ static Jsi_RC StringSubstrCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         jsi_ValueMakeBlobDup(interp, ret, (uchar*)v, bLen);
         return JSI_OK;
     }
-    int istart = (int)nstart, olen = -1;
+    int istart = jsi_ClampIndex(nstart), olen = -1;
     Jsi_DString dStr;
     char *ostr;
     Jsi_DSInit(&dStr);
@@ -135,7 +141,7 @@ static Jsi_RC StringSubstrCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         }
         return JSI_OK;
     }
-    int ilen = (int)nlen;
+    int ilen = jsi_ClampIndex(nlen);
     if (ilen <= 0) {
         Jsi_ValueMakeStringDup(interp, ret, "");
     } else {
@@ -167,7 +173,7 @@ static Jsi_RC StringSubstringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         Jsi_ValueMakeStringDup(interp, ret, v);
         return JSI_OK;
     }
-    int istart = (int)nstart, olen = -1;
+    int istart = jsi_ClampIndex(nstart), olen = -1;
     Jsi_DString dStr;
     Jsi_DSInit(&dStr);
     char *ostr;
@@ -181,7 +187,7 @@ static Jsi_RC StringSubstringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         }
         return JSI_OK;
     }
-    int iend = (int)nend;
+    int iend = jsi_ClampIndex(nend);
     if (iend>sLen)
         iend = sLen;
     if (iend < istart) {
-- 
2.43.0


From 1ac974d39779ed9273a4a2c074ff1394841388fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 033/192] fix: Object.setPrototypeOf dropped a reference it did
 not hold, or leaked the previous prototype

---
 src/jsiProto.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 50c137e..cd0ebed 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -582,11 +582,18 @@ static Jsi_RC jsi_SetPrototypeOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
     Jsi_Value *a = Jsi_ValueArrayIndex(interp, args,1);
     if (!v || !a || v->vt != JSI_VT_OBJECT || a->vt != JSI_VT_OBJECT)
         return JSI_ERROR;
+    Jsi_Value *old = (v->d.obj->clearProto ? v->d.obj->__proto__ : NULL);
     if (a->d.obj->tree->numEntries && a->d.obj != v->d.obj) {
         v->d.obj->__proto__ = Jsi_ValueDup(interp, a);
         v->d.obj->clearProto = 1;
-    } else
+    } else {
         v->d.obj->__proto__ = a->d.obj->__proto__;
+        v->d.obj->clearProto = a->d.obj->clearProto;
+        if (v->d.obj->clearProto && v->d.obj->__proto__)
+            Jsi_IncrRefCount(interp, v->d.obj->__proto__);
+    }
+    if (old)
+        Jsi_DecrRefCount(interp, old);
     return JSI_OK;
 }
 #endif
-- 
2.43.0


From ea87c1b616f3e6bd7358764a6a35b7fbe9d6cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 034/192] fix: Util.hexStr swapped encoding and decoding and
 wrote beyond its buffer

---
 src/jsiUtils.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index a3bfcbd..18c77a0 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2540,7 +2540,7 @@ void jsi_ToHexStr(const uchar *indata, int dlen, char *out) {
 static int jsi_FromHexStr(const char *in, uchar *outdata) {
     int n = 0;
     while (in[0] && in[1]) {
-        if (!isxdigit(in[0]) || isxdigit(in[0]))
+        if (!isxdigit(in[0]) || !isxdigit(in[1]))
             return -1;
         outdata[n++] = jsi_fromHexChar(in[0]) << 4 | jsi_fromHexChar(in[1]);
         in+=2;
@@ -2552,8 +2552,12 @@ static int jsi_FromHexStr(const char *in, uchar *outdata) {
 int Jsi_HexStr(const uchar *data, int len, Jsi_DString *dStr, bool decode) {
     int olen = (decode?(len/2+1):(len*2+1));
     Jsi_DSSetLength(dStr, olen);
-    if (!decode)
-        return jsi_FromHexStr((const char*)data, (uchar*)Jsi_DSValue(dStr));
+    if (decode) {
+        olen = jsi_FromHexStr((const char*)data, (uchar*)Jsi_DSValue(dStr));
+        if (olen >= 0)
+            Jsi_DSSetLength(dStr, olen);
+        return olen;
+    }
     jsi_ToHexStr((const uchar*)data, len, Jsi_DSValue(dStr));
     return olen-1;
 }
-- 
2.43.0


From 56ea08ffdef167a1da45e99f3bf0ce693a0d9aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 035/192] fix: opening a file in a safe sub-interpreter read a
 null argv

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3d38a24..3ed05f6 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -522,7 +522,7 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
         if (interp->isSafe) {
             if ((rc && Jsi_InterpAccess(interp, file, JSI_INTACCESS_CREATE) != JSI_OK)
             || (Jsi_InterpAccess(interp, file, aflag) != JSI_OK
-                && (aflag || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
+                && (aflag || !interp->opts.argv || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
             ) {
                 if (writ || Jsi_Strcmp(fileName, jsiIntData.execName)) {
                     Jsi_LogError("%s access denied: %s", writ?"write":"read", fileName);
-- 
2.43.0


From de276ab581db4bf17ec7c67b3b2304d414bd29cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 036/192] fix: Util.vueConvert used an uninitialised pointer
 for a name without extension

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index a73ed65..13a8bf5 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2373,7 +2373,7 @@ Jsi_RC Jsi_VueConvert(Jsi_Interp *interp, Jsi_Value *fn, const char *str, int sL
         *q[3] = {"\"use strict\";Pdq.component(\"", "\n`\n,\n", "\n});" },
         *x[2] = { "Pdq.subcomponent(\"", "\",{template:`" };
     Jsi_RC rc = JSI_OK;
-    const char *s = str, *cp, *cx, *fext, *fns = Jsi_ValueString(interp, fn, NULL);
+    const char *s = str, *cp, *cx, *fext = NULL, *fns = Jsi_ValueString(interp, fn, NULL);
     if (!fns)
         return Jsi_LogError("missing file name");
     if ((cp = Jsi_Strrchr(fns, '/')))
-- 
2.43.0


From 35dd67bcf7c84fbc4bb7da861b50345d007ebade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 037/192] fix: Array.sort used freed memory when the compare
 function changed the array

---
 src/jsiArray.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 3bc6911..80ff5d8 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -1085,13 +1085,29 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     obj->modifying = 1;
     si.flags = flags;
     Jsi_ObjListifyArray(interp, obj);
+    /* Sort a copy: the compare function may change the array. */
+    curlen = obj->arrCnt;
+    Jsi_Value **tmp = (Jsi_Value**)Jsi_Calloc(curlen+1, sizeof(Jsi_Value*));
+    for (i=0; i<curlen; i++)
+        if ((tmp[i] = obj->arr[i]))
+            Jsi_IncrRefCount(interp, tmp[i]);
 #ifdef NO_QSORT_R
     /* TODO: mutex. */
     curSortInfo = &si;
-    qsort(obj->arr, curlen, sizeof(Jsi_Value*), SortSubCmd);
+    qsort(tmp, curlen, sizeof(Jsi_Value*), SortSubCmd);
 #else
-    qsort_r(obj->arr, curlen, sizeof(Jsi_Value*), SortSubCmd, &si);
+    qsort_r(tmp, curlen, sizeof(Jsi_Value*), SortSubCmd, &si);
 #endif
+    for (i=0; i<(int)obj->arrCnt; i++) {
+        if (obj->arr[i])
+            Jsi_DecrRefCount(interp, obj->arr[i]);
+        obj->arr[i] = NULL;
+    }
+    if (obj->arrMaxSize > (uint)curlen || Jsi_ObjArraySizer(interp, obj, curlen)) {
+        memcpy(obj->arr, tmp, curlen*sizeof(Jsi_Value*));
+        obj->arrCnt = curlen;
+    }
+    Jsi_Free(tmp);
 
     if (interp->deleting) {
 #ifdef NO_QSORT_R
-- 
2.43.0


From 9d885ab133d326fbbb92c3625065a09d948edd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 038/192] fix: the message for an unknown format specifier was
 read out of scope

---
 src/jsiFormat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index 7dc4747..af9112b 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -77,6 +77,7 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
     formatEnd = format + formatLen;
     Jsi_DSInit(dStr);
 
+    char spec[100];
     while (format != formatEnd) {
         char *end;
         int gotMinus, sawFlag;
@@ -86,7 +87,6 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
         int step;
         int doubleType;
         char pad = ' ';
-        char spec[100];
         char *p;
 
         int formatted_chars;
-- 
2.43.0


From feb0e9fbee9a5ae9de6287cc687641aef0200106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 039/192] fix: Channel methods used the freed channel after
 close

---
 src/jsiFilesys.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3ed05f6..c30952a 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -708,6 +708,9 @@ static void fileObjErase(FileObj *fo)
         Jsi_Free(fo->mode);
     }
     fo->filename = NULL;
+    fo->chan = NULL;
+    fo->fname = NULL;
+    fo->mode = NULL;
 }
 
 static Jsi_RC fileObjFree(Jsi_Interp *interp, void *data)
@@ -769,6 +772,10 @@ static int try_open_file(Jsi_Interp *interp, FileObj *udf, Jsi_Value *args)
    FileObj *udf = (FileObj *)Jsi_UserObjGetData(interp, _this, funcPtr); \
     if (!udf) \
         return Jsi_LogError("Channel.%s called with non-file object", funcPtr->cmdSpec->name);
+#define UdfGetOpen(udf, _this, funcPtr) \
+    UdfGet(udf, _this, funcPtr) \
+    if (!udf->filename) \
+        return Jsi_LogError("Channel.%s called with closed file", funcPtr->cmdSpec->name);
 
 static Jsi_RC FilesysOpenCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
@@ -874,7 +881,7 @@ static Jsi_RC FilesysSeekCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 {
     static const char *posStr[] = { "set", "cur", "end", NULL };
     enum { W_SET, W_CUR, W_END };
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Value *vPos = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Value *vWhence = Jsi_ValueArrayIndex(interp, args, 1);
     int mode = 0, p;
@@ -898,7 +905,7 @@ static Jsi_RC FilesysSeekCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Value *vPos = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Number num;
     if (Jsi_ValueGetNumber(interp, vPos, &num) != JSI_OK)
@@ -911,7 +918,7 @@ static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
 static Jsi_RC FilesysStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
 #if JSI__FILESYS==1
     return jsi_FileStatCmd(interp, udf->fname, ret, 0);
 #else
@@ -922,7 +929,7 @@ static Jsi_RC FilesysStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysLstatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
 #if JSI__FILESYS==1
     return jsi_FileStatCmd(interp, udf->fname, ret, 1);
 #else
@@ -933,7 +940,7 @@ static Jsi_RC FilesysLstatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 static Jsi_RC FilesysTellCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Wide pos = Jsi_Tell(interp, udf->chan);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos);
     return JSI_OK;
@@ -942,7 +949,7 @@ static Jsi_RC FilesysTellCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysFlushCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     int pos = Jsi_Flush(interp, udf->chan);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos);
     return JSI_OK;
@@ -995,7 +1002,7 @@ static Jsi_RC FilesysPutsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysEofCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_ValueMakeBool(interp, ret, Jsi_Eof(interp, udf->chan));
     return JSI_OK;
 }
-- 
2.43.0


From 3c40d8849c431c1c0cf13bed5f7b03d9e9133712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 040/192] fix: Interp info built its result with the
 sub-interpreter: freed by one and used by the other

---
 src/jsiInterp.c | 59 +++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 1970b85..abaff6f 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2302,36 +2302,11 @@ static Jsi_RC InterpValueCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     return JSI_OK;
 }
 
-static Jsi_RC InterpInfoCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
-    Jsi_Value **ret, Jsi_Func *funcPtr)
-{
-    InterpObj *udf = (InterpObj *)Jsi_UserObjGetData(interp, _this, funcPtr);
-    Jsi_Interp *subinterp = interp;
-    if (udf) {
-        if (!udf->subinterp)
-            return Jsi_LogError("Sub-interp gone");
-        subinterp = udf->subinterp;
-    }
-    return jsi_InterpInfo(subinterp, args, _this, ret, funcPtr);
-}
-
-Jsi_RC jsi_InterpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
-    Jsi_Value **ret, Jsi_Func *funcPtr)
+static Jsi_RC InterpInfoOf(Jsi_Interp *interp, Jsi_Interp *sinterp, Jsi_Value **ret)
 {
-    Jsi_Interp *sinterp = interp;
     Jsi_DString dStr = {}, cStr = {};
     char tbuf[1024];
-    Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 0);
     tbuf[0] = 0;
-    if (v) {
-        InterpObj *udf = NULL;
-        if (v && v->vt == JSI_VT_OBJECT && v->d.obj->ot == JSI_OT_USEROBJ)
-            udf = (InterpObj *)v->d.obj->d.uobj->data;
-        if (udf && udf->sig == JSI_SIG_INTERPOBJ && udf->subinterp) {
-            sinterp = udf->subinterp;
-        } else
-            return Jsi_LogError("unknown interp");
-    }
     if (sinterp->subthread)
         snprintf(tbuf, sizeof(tbuf), ", thread:{errorCnt:%u, evalCnt:%u, msgCnt:%u }",
             sinterp->threadErrCnt, sinterp->threadEvalCnt, sinterp->threadMsgCnt );
@@ -2342,7 +2317,7 @@ Jsi_RC jsi_InterpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_DSPrintf(&dStr, "{curLevel:%d, curLine:%d, curFile:\"%s\", curFunc:\"%s\", hasExited:%d, "
         "opCnt:%d, isSafe:%s, depth:%d, codeCacheHits: %d, typeMismatchCnt:%d, "
         "funcCallCnt:%d, cmdCallCnt:%d, includeCnt:%d, includeDepth:%d, pkgReqDepth:%d, "
-        "cwd:\"%s\", lockTimeout: %d, name, \"%s\" %s%s};",
+        "cwd:\"%s\", lockTimeout: %d, name:\"%s\" %s%s};",
         sinterp->level, curLine, jsi_GetCurFile(sinterp), funcstr?funcstr:"",
         sinterp->exited, sinterp->opCnt, sinterp->isSafe?"true":"false",
         sinterp->interpDepth, sinterp->codeCacheHit, sinterp->typeMismatchCnt,
@@ -2357,6 +2332,36 @@ Jsi_RC jsi_InterpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     return rc;
 }
 
+static Jsi_RC InterpInfoCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    InterpObj *udf = (InterpObj *)Jsi_UserObjGetData(interp, _this, funcPtr);
+    Jsi_Interp *subinterp = interp;
+    if (udf) {
+        if (!udf->subinterp)
+            return Jsi_LogError("Sub-interp gone");
+        subinterp = udf->subinterp;
+    }
+    return InterpInfoOf(interp, subinterp, ret);
+}
+
+Jsi_RC jsi_InterpInfo(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
+    Jsi_Value **ret, Jsi_Func *funcPtr)
+{
+    Jsi_Interp *sinterp = interp;
+    Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 0);
+    if (v) {
+        InterpObj *udf = NULL;
+        if (v && v->vt == JSI_VT_OBJECT && v->d.obj->ot == JSI_OT_USEROBJ)
+            udf = (InterpObj *)v->d.obj->d.uobj->data;
+        if (udf && udf->sig == JSI_SIG_INTERPOBJ && udf->subinterp) {
+            sinterp = udf->subinterp;
+        } else
+            return Jsi_LogError("unknown interp");
+    }
+    return InterpInfoOf(interp, sinterp, ret);
+}
+
 static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
 {
     Jsi_RC rc = JSI_OK;
-- 
2.43.0


From d32b52d0e73c2d634b4c32d9de74316dc642c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 041/192] fix: File.glob read a freed directory name with a
 regexp pattern, and cut as much as the current directory name off matches
 given with a path

---
 src/jsiFileCmds.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 17a5332..8867aaf 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1037,13 +1037,17 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                         rc = JSI_ERROR;
                         goto done;
                     }
-                    if (!bres)
+                    if (!bres) {
+                        Jsi_DSFree(&sStr);
                         continue;
+                    }
                     else if (bres!=0 && bres!=1)
                         rc = JSI_ERROR;
                 }
-                if (opts->types && Jsi_Strchr(opts->types, 'd'))
+                if (opts->types && Jsi_Strchr(opts->types, 'd')) {
+                    Jsi_DSFree(&sStr);
                     goto dumpit;
+                }
                 zz = Jsi_DSValue(&sStr);
                 rc = SubGlobsDirectory(interp, obj, reg, zPattern, zz, opts, deep+1, cnt+1, _this);
                 Jsi_DSFree(&sStr);
@@ -1248,10 +1252,12 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (!Data.dir) {
         Jsi_DString dStr = {};
         dcp = Jsi_GetCwd(interp, &dStr);
-        Data.dirLen = Jsi_Strlen(dcp);
+        if (Data.recurse || (pat && Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP)))
+            Data.dirLen = Jsi_Strlen(dcp);
         Data.dir = Jsi_ValueNewStringDup(interp, dcp);
         Jsi_IncrRefCount(interp, Data.dir);
         Jsi_DSFree(&dStr);
+        dcp = Jsi_ValueString(interp, Data.dir, NULL);
         isOpts = 1;
     } else {
         dcp = Data.dirStr = Jsi_ValueString(interp, Data.dir, &Data.dirLen);
@@ -1279,9 +1285,10 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (pat == NULL || Jsi_ValueIsNull(interp, pat))
         dcp = "*";
-    else if (Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP))
+    else if (Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP)) {
         rc = SubGlobsDirectory(interp, obj, pat, NULL, dcp, &Data, 0, 0, _this);
-    else {
+        goto finish;
+    } else {
         dcp = Jsi_ValueString(interp, pat, NULL);
         if (!dcp) {
             rc = Jsi_LogError("expected string, regex or null");
@@ -1303,6 +1310,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         dcp = Jsi_DSAppend(&dStr, dcp, NULL);
         
     rc = SubGlobsDirectory(interp, obj, NULL, zPattern, dcp, &Data, 0, 0, _this);
+finish:
     if (rc != JSI_OK)
         Jsi_ValueMakeUndef(interp, ret);   
     else if (Data.retCount)
-- 
2.43.0


From b734b6eecb4b2996f27663a4bace3f5db632dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 042/192] fix: File.glob released a filter function it held no
 reference to

---
 src/jsiFileCmds.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 8867aaf..c91110e 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1226,6 +1226,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 switch (sobj->ot) {
                     case JSI_OT_FUNCTION:
                         Data.filter = arg;
+                        Jsi_IncrRefCount(interp, arg);
                         break;
                     case JSI_OT_OBJECT:
                         if (!sobj->isarrlist) {
-- 
2.43.0


From d676d05e17192476486f36f3274dbf959cac9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 043/192] fix: File.glob took a file as matching when the
 filter function failed

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index c91110e..e9766f7 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -923,7 +923,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
     char pbuf[PATH_MAX];
     Jsi_RC rc = JSI_OK;
     int i, n, flags = opts->flags, slen;
-    bool bres = 0;
+    int bres = 0;
     Jsi_DString tStr = {}, pStr = {}, eStr = {}, zStr = {};
     Jsi_Value *rpPath = Jsi_ValueNew1(interp);
     const char *mid = NULL;
-- 
2.43.0


From 58141ab14270826d9833250bbfe69e2d27e503ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 044/192] fix: System.matchObj read a null value for an
 inherited member and an uninitialised noerror flag

---
 src/jsiCmds.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 58061ec..39f72ce 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4025,7 +4025,7 @@ static void jsi_sysTypeGet(Jsi_Interp *interp, Jsi_Value *arg, Jsi_DString *dStr
     Jsi_IterGetKeys(interp, arg, io, 0);
     for (i=0; i<io->count; i++) {
         Jsi_Value *targ = Jsi_ValueObjLookup(interp, arg, io->keys[i], true);
-        Jsi_DSAppend(dStr, pre, io->keys[i], ":", jsi_ValueTypeName(interp, targ), NULL);
+        Jsi_DSAppend(dStr, pre, io->keys[i], ":", (targ?jsi_ValueTypeName(interp, targ):"undefined"), NULL);
         pre = ",";
     }
     Jsi_DSAppend(dStr, "}", NULL);
@@ -4036,7 +4036,7 @@ static Jsi_RC SysMatchObjCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     char *sp, *cp, *cs, *ss, *ce, *cc;
-    bool ok = 1, partial=0, noerror;
+    bool ok = 1, partial=0, noerror=0;
     Jsi_Value *arg1 = Jsi_ValueArrayIndex(interp, args, 0);
     if (!arg1 || !Jsi_ValueIsObjType(interp, arg1, JSI_OT_OBJECT))
         return Jsi_LogError("arg 1: exected object");
@@ -4063,7 +4063,7 @@ static Jsi_RC SysMatchObjCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         rc = Jsi_LogError("expected bool 'partial'");
         goto done;
     }
-    if (arg3 && Jsi_GetBoolFromValue(interp, arg4, &noerror) != JSI_OK) {
+    if (arg4 && Jsi_GetBoolFromValue(interp, arg4, &noerror) != JSI_OK) {
         rc = Jsi_LogError("expected bool 'noerror'");
         goto done;
     }
-- 
2.43.0


From a15b3db17538b331455266d27118eda666fab2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 045/192] fix: String.repeat converted NaN to int

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index ea6b6c6..7cc03f7 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -215,7 +215,7 @@ static Jsi_RC StringRepeatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Value *start = Jsi_ValueArrayIndex(interp, args, skip);
     
     Jsi_Number ncnt;
-    if (!start || Jsi_GetNumberFromValue(interp,start, &ncnt) != JSI_OK || ncnt>MAX_LOOP_COUNT || ncnt<0 || bLen<=0) {
+    if (!start || Jsi_GetNumberFromValue(interp,start, &ncnt) != JSI_OK || !(ncnt<=MAX_LOOP_COUNT) || ncnt<0 || bLen<=0) {
         return Jsi_LogError("count out of range");;
     }
     int cnt = (int)ncnt;
-- 
2.43.0


From a9171045da1cc86c49c6389323f3846ed3d9332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 046/192] fix: a builtin constructor called without new turned
 the calling object, even the global one, into its result

---
 src/jsiArray.c | 2 +-
 src/jsiEval.c  | 2 ++
 src/jsiFunc.c  | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 80ff5d8..21fbef9 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -1289,7 +1289,7 @@ static Jsi_RC jsi_ArrayConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
         
         for (i = 0; i < argc; ++i) {
             Jsi_Value *argv = Jsi_ValueArrayIndex(interp, args, i);   ;
-            Jsi_ValueInsertArray(interp, _this, i, argv, 0);
+            Jsi_ValueInsertArray(interp, target, i, argv, 0);
         }
     }
     if (iscons)
diff --git a/src/jsiEval.c b/src/jsiEval.c
index 13a8bf5..09c2603 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -792,6 +792,8 @@ empty_func:
         funcPtr->callflags.bits.isdiscard = discard;
     }
     rc = jsi_FuncCallSub(interp, args, tocall, ret, funcPtr, _this, calltrc);
+    if (funcPtr->type == FC_BUILDIN)
+        funcPtr->callflags.bits.iscons = 0;
 
     if (!onam)
         funcPtr->name = NULL;
diff --git a/src/jsiFunc.c b/src/jsiFunc.c
index 85c3faf..fc284b2 100644
--- a/src/jsiFunc.c
+++ b/src/jsiFunc.c
@@ -10,7 +10,7 @@ bool Jsi_FunctionReturnIgnored(Jsi_Interp *interp, Jsi_Func *funcPtr) {
 
 bool Jsi_FunctionIsConstructor(Jsi_Func *funcPtr)
 {
-    return (funcPtr->f.bits.iscons);
+    return (funcPtr->f.bits.iscons && funcPtr->callflags.bits.iscons);
 }
 
 Jsi_CmdSpec *Jsi_FunctionGetSpecs(Jsi_Func *funcPtr)
-- 
2.43.0


From 8c0fcae8fdc336255cc19051c846595010b39cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 047/192] fix: Sqlite and Channel called without new returned
 an object that could not be used

---
 src/jsiFilesys.c | 2 +-
 src/jsiSqlite.c  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index c30952a..4287acc 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1090,7 +1090,7 @@ static Jsi_RC FilesysConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     Jsi_Value *that = _this;
     if (!Jsi_FunctionIsConstructor(funcPtr)) {
         Jsi_Obj *o = Jsi_ObjNew(interp);
-        Jsi_PrototypeObjSet(interp, "File", o);
+        Jsi_PrototypeObjSet(interp, fileobject.name, o);
         Jsi_ValueMakeObject(interp, ret, o);
         that = *ret;
     }
diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 395ec53..f86d39f 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3798,7 +3798,8 @@ bail:
         Jsi_Free(db);
     }
     Jsi_DSFree(&dStr);
-    Jsi_ValueMakeUndef(interp, ret);
+    if (rc != JSI_OK || toacc == _this)
+        Jsi_ValueMakeUndef(interp, ret);
     return rc;
 }
 
-- 
2.43.0


From a0bf234d6efd871195a492f63c53bfce12505765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 048/192] fix: an integer in text with a sign or leading
 blanks, as in parseInt("-17"), was taken as NaN

---
 src/jsiValue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index c629af7..247b1b1 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -615,7 +615,7 @@ donum:
                 }
             } else {
                 a = (Jsi_Number)strtol(sptr, &endPtr, 0);
-                if (!isdigit(*sptr))
+                if (endPtr == sptr)
                     a = interp->NaNValue->d.num;
             }
             break;
-- 
2.43.0


From 6392fb7166929fac45293fb6118cc7f134c08e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 049/192] fix: Math.pow and atan2 gave NaN where the result is
 infinite or subnormal

---
 src/jsiMath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiMath.c b/src/jsiMath.c
index 51d66c9..3181f24 100644
--- a/src/jsiMath.c
+++ b/src/jsiMath.c
@@ -30,7 +30,7 @@ static Jsi_RC fname (Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,\
     if (Jsi_GetNumberFromValue(interp, val2, &num2) != JSI_OK)\
         return JSI_ERROR;\
     num2 = func (num1,num2); \
-    Jsi_ValueMakeNumber(interp, ret, (Jsi_NumberIsNormal(num2)? num2 : NAN));\
+    Jsi_ValueMakeNumber(interp, ret, num2);\
     return JSI_OK;\
 }
 
-- 
2.43.0


From f4b12057d15c83613e08e7456446081d8b683c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 050/192] fix: Channel.open returned true when the file could
 not be opened

---
 src/jsiFilesys.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 4287acc..4e16adb 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -783,6 +783,7 @@ static Jsi_RC FilesysOpenCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     UdfGet(udf, _this, funcPtr);
     if (try_open_file(interp, udf, args) != JSI_OK) {
         Jsi_ValueMakeBool(interp, ret, 0);
+        return JSI_OK;
     }
     Jsi_ValueMakeBool(interp, ret, 1);
     return JSI_OK;
-- 
2.43.0


From 94457ad661e14e0f923d65958be51c272e971589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 051/192] fix: File.glob with a pattern like */x searched from
 the root directory

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index e9766f7..18191e1 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1019,7 +1019,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 if (zPattern != NULL && Jsi_GlobMatch(zPattern, z, 0) == 0)
                     continue;
                 Jsi_DString sStr = {};
-                Jsi_DSAppend(&sStr, spath, "/", z, mid, NULL);
+                Jsi_DSAppend(&sStr, spath, (spath[0]?"/":""), z, mid, NULL);
                 rc = SubGlobsDirectory(interp, obj, NULL, NULL, Jsi_DSValue(&sStr), opts, deep, cnt+1, _this);
                 Jsi_DSFree(&sStr);
                 continue;
-- 
2.43.0


From 044b42e2ed0160da324a3cd76abb213246371bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 052/192] fix: File.remove could not remove a dangling link

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 18191e1..5b42610 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -663,7 +663,7 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected boolean");
     if (vf)
         force = vf->d.val;
-    rc = Jsi_Stat(interp, source, &st);
+    rc = Jsi_Lstat(interp, source, &st);
     if (Jsi_Strcmp(spath,"/")==0)
         return JSI_ERROR;
     if (rc != 0) {
-- 
2.43.0


From 5f715e6ba972eeb3b437d95406d5d2e85725e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 053/192] fix: truncate with a negative size made the file 4
 gigabytes long

---
 src/jsiFileCmds.c | 2 ++
 src/jsiFilesys.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 5b42610..4a63d2a 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -378,6 +378,8 @@ static Jsi_RC FileTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     if (Jsi_GetNumberFromValue(interp, sizv, &siz) != JSI_OK)
         return JSI_ERROR;
     SAFEACCESS(fname, 1, 0)
+    if (!(siz>=0 && siz<=(Jsi_Number)0xffffffffU))
+        return Jsi_LogError("bad size");
     Jsi_Channel ch = Jsi_Open(interp, fname, "rb+");
     if (!ch)
         return JSI_ERROR;
diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 4e16adb..70482a5 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -911,6 +911,8 @@ static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     Jsi_Number num;
     if (Jsi_ValueGetNumber(interp, vPos, &num) != JSI_OK)
         return JSI_ERROR;
+    if (!(num>=0 && num<=(Jsi_Number)0xffffffffU))
+        return Jsi_LogError("bad size");
     num = (Jsi_Number)Jsi_Truncate(interp, udf->chan, (unsigned int)num);
     Jsi_ValueMakeNumber(interp, ret, num);
     return JSI_OK;
-- 
2.43.0


From 46401d6e09a1aec209a95f02c28b000e3779762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 054/192] fix: Channel.gets split lines longer than its buffer

---
 src/jsiFilesys.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 70482a5..cc3dfbf 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -812,11 +812,18 @@ static Jsi_RC FilesysGetsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         Jsi_ValueMakeUndef(interp, ret);
         return JSI_OK;
     }
-    buf[sizeof(buf)-1] = 0;
-    len = Jsi_Strlen(buf);
-    if (len > 0 && buf[len-1] == '\n')
-        buf[len-1] = 0;
-    Jsi_ValueMakeStringDup(interp, ret, buf);
+    Jsi_DString dStr = {};
+    do {
+        buf[sizeof(buf)-1] = 0;
+        len = Jsi_Strlen(buf);
+        if (len > 0 && buf[len-1] == '\n') {
+            buf[len-1] = 0;
+            Jsi_DSAppend(&dStr, buf, NULL);
+            break;
+        }
+        Jsi_DSAppend(&dStr, buf, NULL);
+    } while (len == sizeof(buf)-1 && Jsi_Gets(interp, udf->chan, buf, sizeof(buf)));
+    Jsi_ValueFromDS(interp, &dStr, ret);
     return JSI_OK;
 }
 
-- 
2.43.0


From 6ddd535079f3d469d0a36ed5557860c9466593c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 055/192] fix: Channel.read(0) returned a buffer full of data

---
 src/jsiFilesys.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index cc3dfbf..22a4a6c 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -862,6 +862,10 @@ static Jsi_RC FilesysReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     }
     if (argc>0 && Jsi_GetIntFromValue(interp, Jsi_ValueArrayIndex(interp, args, 0), &nsiz) != JSI_OK)
         goto bail;
+    if (nsiz==0) {
+        Jsi_ValueMakeStringDup(interp, ret, "");
+        return JSI_OK;
+    }
     while (cnt++ < MAX_LOOP_COUNT) {
         rsiz = sizeof(buf);
         if (nsiz>0 && ((sum+rsiz)>nsiz))
-- 
2.43.0


From 3270af9b7fb8c4afe1c7fe22ada49dcb2f5b5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 056/192] fix: channel truncate() ignored buffered data: bytes
 written before it reappeared after it, and reads returned removed bytes

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 22a4a6c..b224e65 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -166,7 +166,7 @@ static int jsi_FSLstatProc(Jsi_Interp *interp, Jsi_Value* path, Jsi_StatBuf *buf
 static int jsi_FSFlushProc(Jsi_Channel chan) { return fflush(_JSI_GETFP(chan,0));}
 static int jsi_FSTellProc(Jsi_Channel chan) { return ftell(_JSI_GETFP(chan,1));}
 static int jsi_FSEofProc(Jsi_Channel chan) { return feof(_JSI_GETFP(chan,1));}
-static int jsi_FSTruncateProc(Jsi_Channel chan, unsigned int len) { return ftruncate(fileno(_JSI_GETFP(chan,1)), len);}
+static int jsi_FSTruncateProc(Jsi_Channel chan, unsigned int len) { FILE *fp = _JSI_GETFP(chan,1); fflush(fp); return ftruncate(fileno(fp), len);}
 static int jsi_FSRewindProc(Jsi_Channel chan) { rewind(_JSI_GETFP(chan,1)); return 0;}
 static int jsi_FSCloseProc(Jsi_Channel chan) { return fclose(_JSI_GETFP(chan,1));}
 static int jsi_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) { return fseek(_JSI_GETFP(chan,1), offset, mode);}
-- 
2.43.0


From 08e1f860f5eb77ee6c20cdd2b4f3adc8210ed222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 057/192] fix: File.copy leaked the source channel when the
 target could not be opened

---
 src/jsiFileCmds.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 4a63d2a..408dd24 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -529,8 +529,10 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
         Jsi_Remove(interp, dest, 0);
     }
     Jsi_Channel och = Jsi_Open(interp, dest, "wb+");
-    if (!och)
+    if (!och) {
+        Jsi_Close(interp, ich);
         return -1;
+    }
     while (1) {
         char buf[JSI_BUFSIZ];
         int n;
-- 
2.43.0


From 481d12a65c5dda94e671e1be0672fdbd866065b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 058/192] fix: SQL REGEXP read a missing third argument, and
 crashed on a NULL column

---
 src/jsiSqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index f86d39f..e609bb5 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1404,8 +1404,10 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
         return;
     }
     const char *str = (char *)sqlite3_value_text(argv[1]);
-    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (char *)sqlite3_value_text(argv[2]);
+    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (argc>2?(char *)sqlite3_value_text(argv[2]):NULL);
     int rc = 0;
+    if (!str || !spat) // Like other SQL functions, NULL in gives NULL out.
+        return;
     bool isNew = 0;
     Jsi_Value *pat = NULL;
     Jsi_HashEntry *hPtr;
-- 
2.43.0


From 9f2c72245051eef732bc13c79e582e8d391d0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 059/192] fix: query mode insert wrote NULL in every row for a
 column null in the first, empty text for other nulls, and extra rows after
 its limit

---
 src/jsiSqlite.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index e609bb5..d8ca852 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2882,7 +2882,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 
                 azArg = Jsi_DSValue(&vStr);
                 const char *zSep = i>0 ? ",": "";
-                if(apColType && apColType[i]==SQLITE_NULL) {
+                if(ptype==SQLITE_NULL) {
                   Jsi_DSAppend(dStr, zSep, "NULL", NULL);
                 }else if( ptype ==SQLITE_TEXT ) {
                   if( zSep[0] ) Jsi_DSAppend(dStr,zSep, NULL);
@@ -2906,6 +2906,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             if (opts.limit && cnt>=opts.limit) break;
         }
         Jsi_DSFree(&vStr);
+        break;
     }
 
     case _JSI_EF_TABS:
-- 
2.43.0


From df4f2201096297cea051b14929b8b54bfe045146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 060/192] fix: query option nullvalue had no effect

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index d8ca852..c7c329d 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1834,6 +1834,8 @@ static void dbEvalSetColumn(DbEvalContext *p, int iCol, Jsi_DString *dStr) {
         return;
     }
     case SQLITE_NULL: {
+        if (p->db->optPtr->nullvalue)
+            Jsi_DSAppend(dStr, p->db->optPtr->nullvalue, NULL);
         return;
     }
     }
-- 
2.43.0


From a44ad62814712bd68e08724486210817b05e067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 061/192] fix: SQL collation functions read past the end of the
 compared texts

---
 src/jsiSqlite.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index c7c329d..72610cc 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1316,8 +1316,11 @@ static int dbSqlCollate(
     Jsi_Value *vpargs, *items[3], *ret;
 
     items[0] = Jsi_ValueNewObj(interp, p->db->fobj);
-    items[1] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zA);
-    items[2] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zB);
+    Jsi_DString aStr = {}, bStr = {}; // Texts from sqlite are not null terminated.
+    items[1] = Jsi_ValueMakeStringDup(interp, NULL, Jsi_DSAppendLen(&aStr, (char*)zA, nA));
+    items[2] = Jsi_ValueMakeStringDup(interp, NULL, Jsi_DSAppendLen(&bStr, (char*)zB, nB));
+    Jsi_DSFree(&aStr);
+    Jsi_DSFree(&bStr);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
     ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, p->zScript, vpargs, &ret, NULL);
-- 
2.43.0


From 662038225a6d60af144e155a6a1a30308bb972a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 062/192] fix: null returned by a script SQL function became
 the text null

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 72610cc..ba79051 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1477,6 +1477,8 @@ static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv)
         // sqlite3_result_int64(context, v);
         Jsi_GetNumberFromValue(interp, ret, &d);
         sqlite3_result_double(context, (double)d);
+    } else if (Jsi_ValueIsNull(interp, ret)) {
+        sqlite3_result_null(context);
     } else {
         const char * data;
         if (!(data = Jsi_ValueGetStringLen(interp, ret, &i))) {
-- 
2.43.0


From b6c0a6adf84de6cbafa85572495bc5e266a045d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 063/192] fix: csv output did not quote text holding a
 separator of several characters

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index ba79051..133c8f5 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2474,7 +2474,7 @@ static void dbOutputCsv(QueryOpts *p, const char *z, Jsi_DString *dStr, int bSep
         int nSep = Jsi_Strlen(p->separator);
         for(i=0; z[i]; i++) {
             if( needCsvQuote[((unsigned char*)z)[i]] || 
-                (z[i]==p->separator[0] && (nSep==1 || memcmp(z, p->separator, nSep)==0)) ) {
+                (z[i]==p->separator[0] && (nSep==1 || Jsi_Strncmp(z+i, p->separator, nSep)==0)) ) {
                 i = 0;
                 break;
             }
-- 
2.43.0


From 7c4303c43889e551b7fa9c107128c77cdb37f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 064/192] fix: a script collation function was used after being
 freed

---
 src/jsiSqlite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 133c8f5..7ab9136 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1063,6 +1063,7 @@ static void dbDeleteCmd(Jsi_Db *db)
     while( db->pCollate ) {
         SqlCollate *pCollate = db->pCollate;
         db->pCollate = pCollate->pNext;
+        Jsi_DecrRefCount(interp, pCollate->zScript);
         Jsi_Free((char*)pCollate);
     }
 
@@ -1322,6 +1323,7 @@ static int dbSqlCollate(
     Jsi_DSFree(&aStr);
     Jsi_DSFree(&bStr);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
+    Jsi_IncrRefCount(interp, vpargs);
     ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, p->zScript, vpargs, &ret, NULL);
     if( JSI_OK!=rc ) {
@@ -2039,6 +2041,7 @@ static Jsi_RC SqliteCollateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     pCollate->pNext = db->pCollate;
     pCollate->zScript = func; /*(char*)&pCollate[1];*/
     db->pCollate = pCollate;
+    Jsi_IncrRefCount(interp, func);
 
     if( sqlite3_create_collation(db->db, zName, SQLITE_UTF8, pCollate, dbSqlCollate) )
     
-- 
2.43.0


From ea5d9e1b2bb779afdaed9cae1a1c054c8ae31eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 065/192] fix: a query ending in a comment dereferenced a null
 statement

---
 src/jsiSqlite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 7ab9136..c480281 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -782,6 +782,7 @@ static Jsi_RC dbEvalStep(DbEvalContext *p) {
         if( p->pPreStmt==0 ) {
             rc = dbPrepareAndBind(p->db, p->zSql, &p->zSql, &p->pPreStmt);
             if( rc!=JSI_OK ) return rc;
+            if( p->pPreStmt==0 ) continue;
         }
         rc = dbEvalStepSub(p, 1, NULL);
         if (rc != JSI_BREAK)
@@ -987,6 +988,8 @@ static Jsi_RC dbPrepareAndBind(
 ) {
     if (dbPrepareStmt(db, zIn, pzOut, ppPreStmt) != JSI_OK)
         return JSI_ERROR;
+    if (!*ppPreStmt) // Only comment or white-space.
+        return JSI_OK;
     return dbBindStmt(db, *ppPreStmt);
 }
 #endif
-- 
2.43.0


From 239795bc38b29ffd0616df0b76207cf984c0267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 066/192] fix: running a query from the callback of a query
 with the same text corrupted the statement cache

---
 src/jsiSqlite.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index c480281..eb4299c 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -157,6 +157,7 @@ typedef struct SqlPreparedStmt SqlPreparedStmt;
 struct SqlPreparedStmt {
     Sqlite_Sig sig;
     int deleting;
+    int inUse;               /* Being evaluated, so not in the cache list */
     SqlPreparedStmt *pNext;  /* Next in linked list */
     SqlPreparedStmt *pPrev;  /* Previous on the list */
     sqlite3_stmt    *pStmt;  /* The prepared statement */
@@ -619,7 +620,8 @@ static void dbReleaseStmt(
     }*/
     //pPreStmt->nParm = 0;
 
-    if( db->stmtCacheMax<=0 || discard ) {
+    pPreStmt->inUse = 0;
+    if( db->stmtCacheMax<=0 || discard || !pPreStmt->entry ) {
         /* If the cache is turned off, deallocated the statement */
         dbPrepStmtFree(db, pPreStmt);
     } else {
@@ -694,7 +696,7 @@ static Jsi_RC dbPrepareStmt(
     }
     //nSql = Jsi_Strlen(zSql);
     Jsi_HashEntry *entry = Jsi_HashEntryFind(db->stmtHash, zSql);
-    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry)))) {
+    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry))) && !pPreStmt->inUse) {
         
         if (db->debug & TMODE_PREPARE)
             JSI_DBQUERY_PRINTF( "DEBUG: prepare cache-hit: %s\n", zSql);
@@ -710,6 +712,9 @@ static Jsi_RC dbPrepareStmt(
 
     }
 
+    else
+        pPreStmt = 0;
+
     /* If no prepared statement was found. Compile the SQL text. Also allocate
     ** a new SqlPreparedStmt structure.  */
     if( pPreStmt==0 ) {
@@ -748,9 +753,10 @@ static Jsi_RC dbPrepareStmt(
         pPreStmt->zSql = sqlite3_sql(pStmt);
         bool isNew = 0;
         pPreStmt->entry = Jsi_HashEntryNew(db->stmtHash, zSql, &isNew);
-        if (!isNew)
-            JSI_DBQUERY_PRINTF( "sqlite dup stmt entry");
-        Jsi_HashValueSet(pPreStmt->entry, pPreStmt);
+        if (!isNew) // The cached statement is in use by an outer query.
+            pPreStmt->entry = NULL;
+        else
+            Jsi_HashValueSet(pPreStmt->entry, pPreStmt);
             
         //pPreStmt->apParm = (Jsi_Value **)&pPreStmt[1];
     }
@@ -758,6 +764,7 @@ static Jsi_RC dbPrepareStmt(
     assert( Jsi_Strlen(pPreStmt->zSql)==pPreStmt->nSql );
     assert( 0==memcmp(pPreStmt->zSql, zSql, pPreStmt->nSql) );
     *ppPreStmt = pPreStmt;
+    pPreStmt->inUse = 1;
     //pPreStmt->nParm = iParm; 
     return rc;
 }
-- 
2.43.0


From 0cd0576c2bdc826071ee47360fe76b4c918efa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 067/192] fix: the type given in one bind parameter was also
 applied to the following ones

---
 src/jsiSqlite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index eb4299c..1ac6292 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -816,6 +816,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
    /* Bind values to parameters that begin with @, $, :, or ? */
     for(i=1; i<=nVar; i++) {
         tname[0] = 0;
+        btype = bindArr = 0;
         int isInt = 0, isBlob = 0;
         const char *zVar = sqlite3_bind_parameter_name(pStmt, i);
         if (zVar == NULL) {
-- 
2.43.0


From 1695a10595c71dd1cdabd8f7c34ad06dfd662b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 068/192] fix: SQL REGEXP with a modifier and without shared
 one cached pattern

---
 src/jsiSqlite.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 1ac6292..2932d1e 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1427,28 +1427,35 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
     bool isNew = 0;
     Jsi_Value *pat = NULL;
     Jsi_HashEntry *hPtr;
-    if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, spat))))
+    Jsi_DString kStr = {}; // Modifiers are part of the cache key.
+    const char *key = Jsi_DSAppend(&kStr, mod?mod:"", "/", spat, NULL);
+    if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, key))))
         pat = (Jsi_Value*)Jsi_HashValueGet(hPtr);
     if (!pat) {
         if (db->regexpHash && db->maxRegexCache>0 && (int)Jsi_HashSize(db->regexpHash)>=db->maxRegexCache) {
             Jsi_LogErrorExt("Regex hash reached max size: %d", db->maxRegexCache);
+            Jsi_DSFree(&kStr);
             return;
         }
         pat = Jsi_ValueNewRegExp(interp, spat, mod);
-        if (!pat)
+        if (!pat) {
+            Jsi_DSFree(&kStr);
             return;
+        }
         Jsi_IncrRefCount(interp, pat);
         if (db->maxRegexCache) {
             if (!db->regexpHash)
                 db->regexpHash = Jsi_HashNew(interp, JSI_KEYS_STRING, jsiSqlfreeValueTbl);
-            hPtr = Jsi_HashEntryNew(db->regexpHash, spat, &isNew);
+            hPtr = Jsi_HashEntryNew(db->regexpHash, key, &isNew);
             if (!hPtr) {
+                Jsi_DSFree(&kStr);
                 Jsi_DecrRefCount(interp, pat);
                 return;
             }
             Jsi_HashValueSet(hPtr, pat);
         }
     }
+    Jsi_DSFree(&kStr);
     if (Jsi_RegExpMatch(interp, pat, str, &rc, NULL)==JSI_OK)
         sqlite3_result_int(context, rc);
     if (!db->maxRegexCache)
-- 
2.43.0


From 0d978511b7ae81ebd6874bbcf0df214c75739853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 069/192] fix: quotes in the text defaults of a table created
 from an object were not escaped

---
 src/jsiUtils.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 18c77a0..d3674d8 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -542,6 +542,13 @@ bool jsi_StrInArray(Jsi_Interp* interp, Jsi_Value *arr, const char *str) {
 }
 
 /* Modify Sql to append bind fields for Object */
+static const char *jsi_SqlQuote(Jsi_DString *dStr, const char *cp) {
+    Jsi_DSAppend(dStr, "'", NULL);
+    for (; cp && *cp; cp++)
+        Jsi_DSAppendLen(dStr, (*cp=='\''?"''":cp), (*cp=='\''?2:1));
+    return Jsi_DSAppend(dStr, "'", NULL);
+}
+
 Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* opts) {
     const char *varName = opts->name; 
     bool addTypes = !opts->noTypes, addDefaults = !opts->defaultNull,
@@ -617,17 +624,16 @@ Jsi_RC Jsi_SqlObjBinds(Jsi_Interp* interp, Jsi_DString* zStr, Jsi_SqlObjOpts* op
                     typ = "CHARJSON";
                     if (addDefaults) {
                         Jsi_DSFree(&jStr);
-                        Jsi_DSAppend(&jStr, "'", NULL);
-                        Jsi_ValueGetDString(interp, v, &jStr, JSI_OUTPUT_JSON|JSI_JSON_STRICT);
-                        Jsi_DSAppend(&jStr, "'", NULL);
-                        dflt = Jsi_DSValue(&jStr);
+                        Jsi_DString qStr = {};
+                        dflt = jsi_SqlQuote(&jStr, Jsi_ValueGetDString(interp, v, &qStr, JSI_OUTPUT_JSON|JSI_JSON_STRICT));
+                        Jsi_DSFree(&qStr);
                     }
                 } else {
                     typ = "TEXT";
                     if (addDefaults) {
                         if ((cp=Jsi_ValueString(interp, v, NULL))) {
                             Jsi_DSFree(&jStr);
-                            dflt = Jsi_DSAppend(&jStr, "'", cp, "'", NULL);
+                            dflt = jsi_SqlQuote(&jStr, cp);
                         } else
                             dflt = "NULL";
                     }
-- 
2.43.0


From 5bfa91ee46b4b6d399f5800ce53939ded48d199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 070/192] fix: an empty blob was read as null

---
 src/jsiSqlite.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 2932d1e..550d1a8 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1355,9 +1355,8 @@ static Jsi_Value* dbGetValueGet(Jsi_Interp *interp, sqlite3_value *pIn)
         int bytes;
         bytes = sqlite3_value_bytes(pIn);
         const char *zBlob = (char*) sqlite3_value_blob(pIn);
-        if(!zBlob ) {
-            return Jsi_ValueMakeNull(interp, &v);
-        }
+        if(!zBlob )
+            zBlob = ""; // Empty blob.
         unsigned char *uptr = (unsigned char*)Jsi_Malloc(bytes+1);
         memcpy(uptr, zBlob, bytes);
         uptr[bytes] = 0;
@@ -1780,10 +1779,8 @@ static void dbEvalSetColumnJSON(DbEvalContext *p, int iCol, Jsi_DString *dStr) {
     case SQLITE_BLOB: {
         int bytes = sqlite3_column_bytes(pStmt, iCol);
         const char *zBlob = (char*)sqlite3_column_blob(pStmt, iCol);
-        if( !zBlob ) {
-            Jsi_DSAppend(dStr, "null", NULL);
-            return;
-        }
+        if( !zBlob )
+            zBlob = ""; // Empty blob.
         Jsi_JSONQuote(interp, zBlob, bytes, dStr);
         return;
     }
@@ -1882,7 +1879,7 @@ static Jsi_Value* dbEvalSetColumnValue(DbEvalContext *p, int iCol, Jsi_Value **v
         int bytes = sqlite3_column_bytes(pStmt, iCol);
         const char *zBlob = (char*)sqlite3_column_blob(pStmt, iCol);
         if( !zBlob )
-            return Jsi_ValueMakeNull(interp, val);
+            zBlob = ""; // Empty blob.
         unsigned char *uptr = (unsigned char*)Jsi_Malloc(bytes+1);
         memcpy(uptr, zBlob, bytes);
         uptr[bytes] = 0;
-- 
2.43.0


From 5aa2b577c9c52ccb6bc0e9c170e98629729b6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 071/192] fix: csv headers were not quoted

---
 src/jsiSqlite.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 550d1a8..d0f4767 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2945,7 +2945,10 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 for(i=0; i<nCol; i++) {
                     if (i)
                         Jsi_DSAppend(dStr, opts.separator, NULL);
-                    Jsi_DSAppend(dStr, apColName[i], NULL);
+                    if (opts.mode == _JSI_EF_CSV)
+                        dbOutputCsv(&opts, apColName[i], dStr, 0);
+                    else
+                        Jsi_DSAppend(dStr, apColName[i], NULL);
                 }
             }
 
-- 
2.43.0


From f80617bd121e2d73a9c8ed2d3b15f5d70a2fae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 072/192] fix: an error in a query callback was dropped

---
 src/jsiSqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index d0f4767..b69c307 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1969,10 +1969,12 @@ static Jsi_RC dbEvalCallCmd( DbEvalContext *p, Jsi_Interp *interp, Jsi_RC result
             Jsi_ObjInsert(interp, argso, apColName[i], nnv, 0);
         }
         Jsi_IncrRefCount(interp, varg1);
-        bool rb = Jsi_FunctionInvokeBool(interp, p->tocall, varg1, NULL);
+        int rb = Jsi_FunctionInvokeBool(interp, p->tocall, varg1, NULL);
         Jsi_DecrRefCount(interp, varg1);
         if (Jsi_InterpGone(interp))
             return JSI_ERROR;
+        if (rb == 2) // Callback failed.
+            return JSI_ERROR;
         if (rb)
             break;
     }
-- 
2.43.0


From 5e9b3c0b0fd714cdf6701e0511a13129299812e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 073/192] fix: csv import overflowed its column table, failed
 on lines ending in a quoted field and closed the file twice

---
 src/jsiSqlite.c | 63 ++++++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index b69c307..c887bab 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2126,6 +2126,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     int created = 0;
     const char *zSep;
     const char *zNull;
+    Jsi_DString sStr = {};
 
     if (!(db = dbGetDbHandle(interp, _this, funcPtr))) return JSI_ERROR;
     Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 2);
@@ -2257,6 +2258,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     while ((zLine = dbLocalGetline(interp, 0, in))!=0 ) {
         char *z;
         i = 0;
+        Jsi_DSSetLength(&sStr, 0);
         lineno++;
         if (opts.limit>0 && lineno > opts.limit) {
             Jsi_Free(zLine);
@@ -2269,7 +2271,6 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if (opts.csv && Jsi_Strchr(zLine,'"')) 
         {
             char *zn, *z = zLine;
-            Jsi_DString sStr = {};
             int qcnt = 0;
             i = -1;
             while (*z) if (*z++ == '"') qcnt++;
@@ -2289,51 +2290,36 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
                 z = Jsi_DSValue(&sStr);
             }
             if (qcnt%2) {
-                Jsi_DSFree(&sStr);
-                Jsi_Free(zLine);
-                Jsi_Close(interp, in);
+                if (zLine)
+                    Jsi_Free(zLine);
                 Jsi_LogErrorExt("unterminated string at line: %d", lineno);
+                onCommit = "ROLLBACK";
                 break;
             }
             while (z) {
+                char *val = z;
                 if (*z != '\"') { /* Handle un-quoted value */
                     zn = Jsi_Strstr(z, zSep);
-                    azCol[++i] = z;
-                    if (!zn)
-                        break;
-                    *zn = 0;
-                    z = zn+nSep;
-                    continue;
-                }
-                /* Handle quoted value */
-                zn = ++z;
-                Jsi_DString cStr = {};
-                while (1) {
-                    if (!zn)
-                        break;
-                    if (*zn != '"')
-                        Jsi_DSAppendLen(&cStr, zn, 1);
-                    else {
-                        if (zn[1] == '"') {
-                            zn++;
-                            Jsi_DSAppendLen(&cStr, "\"", 1);
-                        } else if (zn[1] == 0) {
-                            break;
-                        } else if (Jsi_Strncmp(zn+1,zSep, nSep)==0) {
-                            *zn = 0;
-                            zn += (nSep + 1);
-                            break;
-                        } else {
-                            /* Invalid, comma should be right after close quote, so just eat quote. */
-                            Jsi_DSAppendLen(&cStr, zn, 1);
+                    if (zn)
+                        *zn = 0;
+                    z = (zn ? zn+nSep : NULL);
+                } else { /* Handle quoted value, removing quotes in place. */
+                    char *zo = val = ++z;
+                    while (*z) {
+                        if (*z == '"') {
+                            if (z[1] == '"')
+                                z++;
+                            else if (z[1] == 0 || Jsi_Strncmp(z+1,zSep, nSep)==0)
+                                break;
+                            /* else invalid, comma should be right after close quote, so just eat quote. */
                         }
+                        *zo++ = *z++;
                     }
-                    zn++;
+                    z = (*z && z[1] ? z+1+nSep : NULL);
+                    *zo = 0;
                 }
-                Jsi_Strcpy(z, Jsi_DSValue(&cStr));
-                Jsi_DSFree(&cStr);
-                azCol[++i] = z;
-                z = zn;
+                if (++i < nCol)
+                    azCol[i] = val;
             }
         } else {
             azCol[0] = zLine;
@@ -2351,6 +2337,8 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if( i+1!=nCol ) {
             Jsi_LogErrorExt("%s line %d: expected %d columns of data but found %d",
                  zFile, lineno, nCol, i+1);
+            if (zLine)
+                Jsi_Free(zLine);
             onCommit = "ROLLBACK";
             break;
         }
@@ -2374,6 +2362,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             break;
         }
     }
+    Jsi_DSFree(&sStr);
     Jsi_Free(azCol);
     Jsi_Close(interp, in);
     sqlite3_finalize(pStmt);
-- 
2.43.0


From 3a89a4867d3f37449ed10a34c91474cf9029c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 074/192] fix: an error in the object named for %v was not
 raised until a later statement

---
 src/jsiSqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index c887bab..32844e2 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2645,8 +2645,10 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         goto bail;
     }
     if (opts.obj.name) {
-        if (Jsi_SqlObjBinds(interp, &eStr, &opts.obj) != JSI_OK)
+        if (Jsi_SqlObjBinds(interp, &eStr, &opts.obj) != JSI_OK) {
+            rc = JSI_ERROR;
             goto bail;
+        }
         zSql = Jsi_DSValue(&eStr);
     }
     if ((db->echo || opts.echo) && zSql)
-- 
2.43.0


From b17433b5522ffe7b5e4f64dbaefe6533302d29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:37 +0000
Subject: [PATCH 075/192] fix: db.transaction rejected every call with a
 transaction type

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 32844e2..2de030e 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3429,7 +3429,7 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
     const char *zBegin = "SAVEPOINT _jsi_transaction";
 
     if( db->nTransaction==0 && argc==2 ) {
-        Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 0);
+        Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 1);
         static const char *TTYPE_strs[] = {
             "deferred",   "exclusive",  "immediate", 0
         };
@@ -3453,7 +3453,7 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
             break;
         }
     }
-    pScript = Jsi_ValueArrayIndex(interp, args, argc-1);
+    pScript = Jsi_ValueArrayIndex(interp, args, 0);
     if(!Jsi_ValueIsFunction(interp, pScript)) 
         return Jsi_LogErrorExt("expected function");
 
-- 
2.43.0


From 637a6d9a5e49ade9c4bf069c0b380d9ba31ae149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:23 +0000
Subject: [PATCH 076/192] fix: onCommit and onRollback were called without
 their declared argument, so every commit failed

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 2de030e..ccddf34 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1208,7 +1208,7 @@ static int dbCommitHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, NULL, &ret, NULL) ) {
+    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, vpargs, &ret, NULL) ) {
         db->errCnt++;
         rc = 1;
     } else
@@ -1252,7 +1252,7 @@ static void dbRollbackHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    Jsi_FunctionInvoke(interp, db->onRollback, NULL, &ret, NULL);
+    Jsi_FunctionInvoke(interp, db->onRollback, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
     Jsi_DecrRefCount(interp, ret);
 }
-- 
2.43.0


From 58f5489f6809ef6bff50641e062fcbedc32128b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 077/192] fix: calling conf() removed the commit, rollback,
 update and other hooks set before

---
 src/jsiSqlite.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index ccddf34..9b03b58 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3534,52 +3534,52 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 
 void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
-    if (db->onAuth && (!ojdb || !ojdb->onAuth) )
+    if (db->onAuth)
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
 
-    if (db->onCommit && (!ojdb || !ojdb->onCommit) )
+    if (db->onCommit)
         sqlite3_commit_hook(db->db, dbCommitHandler, db);
     else
         sqlite3_commit_hook(db->db, 0, 0);
 
-    if (db->onBusy && (!ojdb || !ojdb->onBusy) )
+    if (db->onBusy)
         sqlite3_busy_handler(db->db, dbBusyHandler, db);
     else
         sqlite3_busy_handler(db->db, 0, 0);
     
-    if (db->onTrace && (!ojdb || !ojdb->onTrace) )
+    if (db->onTrace)
         sqlite3_trace(db->db, dbTraceHandler, db);
     else
         sqlite3_trace(db->db, 0, 0);
 
-    if (db->onNeedCollate && (!ojdb || !ojdb->onNeedCollate) )
+    if (db->onNeedCollate)
         sqlite3_collation_needed(db->db, db, dbCollateNeeded);
     else
         sqlite3_collation_needed(db->db, 0, 0);
 
-    if (db->onUpdate && (!ojdb || !ojdb->onUpdate) )
+    if (db->onUpdate)
         sqlite3_update_hook(db->db, dbUpdateHandler, db);
     else
         sqlite3_update_hook(db->db, 0, 0);
 
-    if (db->onWalHook && (!ojdb || !ojdb->onWalHook) )
+    if (db->onWalHook)
         sqlite3_wal_hook(db->db, dbWalHandler, db);
     else
         sqlite3_wal_hook(db->db, 0, 0);
 
-    if (db->onRollback && (!ojdb || !ojdb->onRollback) )
+    if (db->onRollback)
         sqlite3_rollback_hook(db->db, dbRollbackHandler, db);
     else
         sqlite3_rollback_hook(db->db, 0, 0);
 
-    if (db->onProfile && (!ojdb || !ojdb->onProfile) )
+    if (db->onProfile)
         sqlite3_profile(db->db, dbProfileHandler, db);
     else
         sqlite3_profile(db->db, 0, 0);
 
-    if (db->onProgress && db->progressSteps && (!ojdb || !ojdb->onProgress || ojdb->progressSteps != db->progressSteps) )
+    if (db->onProgress && db->progressSteps)
         sqlite3_progress_handler(db->db, db->progressSteps, dbProgressHandler, db);
     else
         sqlite3_progress_handler(db->db, 0, 0, 0);
@@ -3590,7 +3590,7 @@ void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
     if (!ojdb || db->timeout != ojdb->timeout)
         sqlite3_busy_timeout( db->db, db->timeout );
 
-/*    if (db->onUnlock && (!ojdb || !ojdb->onUnlock) )
+/*    if (db->onUnlock)
         sqlite3_unlock_notify(db->db, dbUnlockNotify, (void*)db);
     else
         sqlite3_unlock_notify(db->db, 0, 0);
-- 
2.43.0


From d23f291e0ba2abd3115d96cf9bbc169205d0cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 078/192] fix: Util.hexStr returned an empty string for every
 input

---
 src/jsiUtils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index d3674d8..776fa21 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2561,10 +2561,11 @@ int Jsi_HexStr(const uchar *data, int len, Jsi_DString *dStr, bool decode) {
     if (decode) {
         olen = jsi_FromHexStr((const char*)data, (uchar*)Jsi_DSValue(dStr));
         if (olen >= 0)
-            Jsi_DSSetLength(dStr, olen);
+            dStr->len = olen;
         return olen;
     }
     jsi_ToHexStr((const uchar*)data, len, Jsi_DSValue(dStr));
+    dStr->len = olen-1;
     return olen-1;
 }
 #ifndef JSI_LITE_ONLY
-- 
2.43.0


From 2fe8b688677c71eb5b7753ab0b63b1665c63a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 079/192] fix: csv output did not quote text ending in part of
 a separator

---
 src/jsiSqlite.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 9b03b58..f2fdab0 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2480,10 +2480,9 @@ static void dbOutputCsv(QueryOpts *p, const char *z, Jsi_DString *dStr, int bSep
         Jsi_DSAppend(dStr,  p->nullvalue?p->nullvalue:"", NULL);
     } else {
         int i;
-        int nSep = Jsi_Strlen(p->separator);
         for(i=0; z[i]; i++) {
             if( needCsvQuote[((unsigned char*)z)[i]] || 
-                (z[i]==p->separator[0] && (nSep==1 || Jsi_Strncmp(z+i, p->separator, nSep)==0)) ) {
+                z[i]==p->separator[0] ) {
                 i = 0;
                 break;
             }
-- 
2.43.0


From 3c5c0fcab3d2a49db54e9435cc1877f0cd563592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 080/192] fix: Util.encrypt returned texts of up to 4 bytes
 unencrypted, and refused a single byte

---
 src/jsiCrypto.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index 37c3807..e0e451b 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -895,13 +895,14 @@ Jsi_RC Jsi_Encrypt(Jsi_Interp *interp, Jsi_DString *inout, const char *key, uint
     uchar digest[32];
     char *buf = Jsi_DSValue(inout);
     uint pad = 0, nlen = Jsi_DSLength(inout);
-    if (nlen<2)
+    if (nlen<(decrypt?2:1))
         goto badlen;
     if (decrypt) {
         pad = (uint)buf[--nlen];
         Jsi_DSSetLength(inout, nlen);
     } else {
-        while (nlen%4) {
+        /* The cipher leaves a single word unchanged, so there must be at least two. */
+        while (nlen%4 || nlen<8) {
             Jsi_DSAppendLen(inout, "\0", 1);
             nlen++;
             pad++;
-- 
2.43.0


From 4d8dd628ff8f35a95cea1145eba17bff79002986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 081/192] fix: encodeURI and encodeURIComponent left % and
 other reserved characters unencoded, so decoding changed the text

---
 src/jsiCmds.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 39f72ce..66b8075 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1180,9 +1180,9 @@ static char *url_encode(char *str, bool comp) {
 
   char *pstr = str, *buf = (char*)Jsi_Malloc(Jsi_Strlen(str) * 3 + 1), *pbuf = buf;
   while (*pstr) {
-    if (isalnum(*pstr) || (!Jsi_Strchr(ncomps, *pstr) && (!comp || !Jsi_Strchr(comps, *pstr))))
+    if (isalnum((uchar)*pstr) || (*pstr&0x80) || Jsi_Strchr(ncomps, *pstr) || (!comp && Jsi_Strchr(comps, *pstr)))
       *pbuf++ = *pstr;
-    else if (*pstr == ' ') 
+    else if (comp && *pstr == ' ') 
       *pbuf++ = '+';
     else 
       *pbuf++ = '%', *pbuf++ = jsi_toHexChar(*pstr >> 4), *pbuf++ = jsi_toHexChar(*pstr & 15);
@@ -1208,7 +1208,7 @@ static char *url_decode(char *str, int *len, bool comp) {
             *pbuf++ = cc;
         }
       }
-    } else if (*pstr == '+') { 
+    } else if (comp && *pstr == '+') { 
       *pbuf++ = ' ';
     } else {
       *pbuf++ = *pstr;
-- 
2.43.0


From f1a1e3e3ab8a400a248f527f5c7961984bc33189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 082/192] fix: Util.hash with the sha3 types: the names
 selected each other's digest sizes, shorter digests were padded to 64 bytes,
 and texts longer than one block hashed wrongly

---
 src/jsiCrypto.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index e0e451b..c1b0be3 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -583,15 +583,15 @@ static void sha256_final(jsi_SHA256_CTX *ctx, uchar hash[])
 #define SHA3_224_DIGEST_LENGTH  28
 #define SHA3_224_CBLOCK        144
 
-#define SHA3_256                 1
+#define SHA3_256                 3 /* The order of Jsi_CryptoHashType. */
 #define SHA3_256_DIGEST_LENGTH  32
 #define SHA3_256_CBLOCK        136
 
-#define SHA3_384                 2
+#define SHA3_384                 1
 #define SHA3_384_DIGEST_LENGTH  48
 #define SHA3_384_CBLOCK        104
 
-#define SHA3_512                3
+#define SHA3_512                2
 #define SHA3_512_DIGEST_LENGTH 64
 #define SHA3_512_CBLOCK        72
 
@@ -731,6 +731,7 @@ static void SHA3_Final (void* dgst, SHA3_CTX* ctx)
   // add 3 bits, Keccak uses 1
   // a lot of online implementations are using 1 instead of 6
   // since the NIST specifications haven't been finalized.
+  memset(&ctx->blk[ctx->index], 0, ctx->blklen - ctx->index);
   ctx->blk[ctx->index] = 6;
   // or the end bit
   ctx->blk[ctx->blklen-1] |= 0x80;
@@ -762,7 +763,7 @@ static int jsi_Sha3Digest(unsigned char *digest, const char *str, int len, int t
         len = Jsi_Strlen(str);
     SHA3_Update(&ctx, (unsigned char*)str, len);
     SHA3_Final(digest, &ctx);
-    return 64;
+    return (int)ctx.dgstlen;
 }
 #endif
 
-- 
2.43.0


From aaad68e2c4a58c3784f30cc98480b8c827b214fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 083/192] fix: Util.hexStr decoding left its result
 unterminated, so operations reading up to the terminator (base64, C strings)
 saw stray bytes

---
 src/jsiUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 776fa21..d3b1327 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2561,7 +2561,7 @@ int Jsi_HexStr(const uchar *data, int len, Jsi_DString *dStr, bool decode) {
     if (decode) {
         olen = jsi_FromHexStr((const char*)data, (uchar*)Jsi_DSValue(dStr));
         if (olen >= 0)
-            dStr->len = olen;
+            Jsi_DSValue(dStr)[dStr->len = olen] = 0;
         return olen;
     }
     jsi_ToHexStr((const uchar*)data, len, Jsi_DSValue(dStr));
-- 
2.43.0


From 8f8a89abf3d58f327ea016324de6079a050eb410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 084/192] fix: import() inside a transaction committed, or on
 an error rolled back, the whole transaction, and a failing commit was
 reported as success

---
 src/jsiSqlite.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index f2fdab0..612abb4 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2253,7 +2253,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         rc = JSI_ERROR;
         goto bail;
     }
-    (void)sqlite3_exec(db->db, "BEGIN", 0, 0, 0);
+    (void)sqlite3_exec(db->db, "SAVEPOINT _jsi_import", 0, 0, 0);
     onCommit = "COMMIT";
     while ((zLine = dbLocalGetline(interp, 0, in))!=0 ) {
         char *z;
@@ -2366,7 +2366,12 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Free(azCol);
     Jsi_Close(interp, in);
     sqlite3_finalize(pStmt);
-    (void)sqlite3_exec(db->db, onCommit, 0, 0, 0);
+    if (onCommit[0] == 'C' && (rc = sqlite3_exec(db->db, "RELEASE _jsi_import", 0, 0, 0)) != SQLITE_OK) {
+        Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
+        onCommit = "ROLLBACK";
+    }
+    if (onCommit[0] != 'C')
+        (void)sqlite3_exec(db->db, "ROLLBACK TO _jsi_import; RELEASE _jsi_import", 0, 0, 0);
 
     if( onCommit[0] == 'C' ) {
         /* success, set result as number of lines processed */
-- 
2.43.0


From 64e5d46cfd5b5b5c71a8b0611698c9f3c9e7853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 085/192] fix: after an I/O error while undoing a nested
 transaction, later statements of the enclosing transaction were committed one
 by one

---
 src/jsiSqlite.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 612abb4..5130d63 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -247,6 +247,7 @@ typedef struct Jsi_Db {
     int timeout;
     int stepCnt, sortCnt;          /* Statistics for most recent operation */
     int nTransaction;          /* Number of nested [transaction] methods */
+    bool transLost;            /* The transaction was rolled back while nTransaction>0 */
     int errCnt;               /* Count of errors. */
     Jsi_Value *vfs;
     int hasOpts;
@@ -689,6 +690,8 @@ static Jsi_RC dbPrepareStmt(
     JSI_NOTUSED(interp);
 
     *ppPreStmt = 0;
+    if (db->transLost)
+        return Jsi_LogErrorExt("the enclosing transaction was rolled back");
 
     /* Trim spaces from the start of zSql and calculate the remaining length. */
     while( isspace(zSql[0]) ) {
@@ -1739,6 +1742,8 @@ static Jsi_RC dbTransPostCmd(
     const char *zEnd;
 
     db->nTransaction--;
+    if (db->nTransaction==0)
+        db->transLost = 0;
     zEnd = azEnd[(rc==JSI_ERROR)*2 + (db->nTransaction==0)];
 
     db->disableAuth++;
@@ -1758,6 +1763,8 @@ static Jsi_RC dbTransPostCmd(
             rc = JSI_ERROR;
         }
         sqlite3_exec(db->db, "ROLLBACK", 0, 0, 0);
+        if (db->nTransaction>0)
+            db->transLost = 1;
     }
     db->disableAuth--;
 
@@ -2403,6 +2410,8 @@ static Jsi_RC SqliteEvalCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     sqlite3_stmt *pStmt = NULL;
 
     if (!(db = dbGetDbHandle(interp, _this, funcPtr))) return JSI_ERROR;
+    if (db->transLost)
+        return Jsi_LogErrorExt("the enclosing transaction was rolled back");
     const char *zSql = Jsi_ValueArrayIndexToStr(interp, args, 0, NULL);
     const char *zStart = zSql, *zLeftover = NULL, *zErrMsg = NULL;
     int lnum = 1;
@@ -3460,6 +3469,8 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
     pScript = Jsi_ValueArrayIndex(interp, args, 0);
     if(!Jsi_ValueIsFunction(interp, pScript)) 
         return Jsi_LogErrorExt("expected function");
+    if (db->transLost)
+        return Jsi_LogErrorExt("the enclosing transaction was rolled back");
 
     /* Run the SQLite BEGIN command to open a transaction or savepoint. */
     db->disableAuth++;
-- 
2.43.0


From e0123c2e55f91ff5e1aaf0ee30ef43f3b870ddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 086/192] fix: import() in a transaction that had already been
 rolled back committed its rows on its own

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 5130d63..430cb09 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2136,6 +2136,8 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_DString sStr = {};
 
     if (!(db = dbGetDbHandle(interp, _this, funcPtr))) return JSI_ERROR;
+    if (db->transLost)
+        return Jsi_LogErrorExt("the enclosing transaction was rolled back");
     Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 2);
     ImportData opts = {};
 
-- 
2.43.0


From 2feaee55efdd3d6d034734bd3716fbca6728d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 087/192] fix: in safe mode new files and directories could be
 created outside the granted directories through a symlink inside them; a path
 longer than PATH_MAX overflowed a stack buffer

---
 src/jsiFilesys.c | 36 ++++++++++++++++++++++++++++++++++++
 src/jsiInterp.c  |  5 +++++
 2 files changed, 41 insertions(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index b224e65..4fb5232 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1391,6 +1391,29 @@ char * Jsi_GetCwd(Jsi_Interp *interp, Jsi_DString *cwdPtr) {
     return Jsi_DSValue(cwdPtr);
 }
 
+#ifndef __WIN32
+/* For a path that does not exist: resolve the leading part that does, so that symlinks there are followed. */
+static char *RealpathPrefix(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
+    Jsi_DString fStr = {}, cStr = {};
+    char pbuf[PATH_MAX];
+    if (path[0] != '/')
+        Jsi_DSAppend(&fStr, Jsi_GetCwd(interp, &cStr), "/", NULL);
+    Jsi_DSAppend(&fStr, path, NULL);
+    char *cp = Jsi_DSValue(&fStr), *rp = NULL;
+    int n = Jsi_DSLength(&fStr);
+    while (n>0 && !rp) {
+        while (n>0 && cp[--n] != '/');
+        if (n<=0) break;
+        cp[n] = 0;
+        rp = realpath(cp, pbuf);
+        cp[n] = '/';
+    }
+    Jsi_DSAppend(dStr, (rp && rp[1] ? rp : ""), cp+n, NULL);
+    Jsi_DSFree(&fStr); Jsi_DSFree(&cStr);
+    return Jsi_DSValue(dStr);
+}
+#endif
+
 char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
 {
     if (!path || !path[0]) return NULL;
@@ -1429,12 +1452,25 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
             //npath = (char*)path;
         }
     }
+#ifndef __WIN32
+    Jsi_DString rStr = {};
+    if (!apath)
+        npath = RealpathPrefix(interp, npath, &rStr);
+#endif
+    if (!apath && newname && Jsi_Strlen(npath)>=PATH_MAX) {
+        Jsi_DSFree(&dStr); Jsi_DSFree(&eStr);
+#ifndef __WIN32
+        Jsi_DSFree(&rStr);
+#endif
+        return NULL;
+    }
     if (!apath) {
         if (newname)
             Jsi_Strcpy(apath=newname, npath);
         else
             apath = Jsi_Strdup(npath);
 #ifndef __WIN32
+        Jsi_DSFree(&rStr);
         /* If path not exists on unix we try to eliminate ../ and /./ etc.*/
         NormalizeUnixPath(interp, apath);
 #endif
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index abaff6f..a58374d 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2986,6 +2986,11 @@ Jsi_RC Jsi_InterpAccess(Jsi_Interp *interp, Jsi_Value* resource, int aflag)
     char *str, *dstr = Jsi_Realpath(interp, resource, pbuf);
     if (!dstr)
         return JSI_ERROR;
+#ifndef __WIN32
+    struct stat sb; // A link that could not be resolved.
+    if (lstat(dstr, &sb) == 0 && S_ISLNK(sb.st_mode))
+        return JSI_ERROR;
+#endif
     for (i=0; i<argc; i++) {
         v = Jsi_ValueArrayIndex(interp, dirs, i);
         if (!v) continue;
-- 
2.43.0


From 3bc2196572dc25ff736e2b85a50ab5793340c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 088/192] fix: in safe mode Sqlite could reach any file:
 attach, vacuum into, backup, restore, a path with ../ after a symlink, and
 loading extensions

---
 src/jsiSqlite.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 430cb09..6be07d4 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1513,6 +1513,19 @@ static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv)
     Jsi_DecrRefCount(interp, ret);
 }
 
+/* In a safe interp, check that a database file may be used. */
+static Jsi_RC dbSafeAccess(Jsi_Interp *interp, const char *zFile, bool write)
+{
+    Jsi_StatBuf st = {};
+    Jsi_Value *vFile = Jsi_ValueNewStringDup(interp, zFile);
+    Jsi_IncrRefCount(interp, vFile);
+    Jsi_RC rc = Jsi_InterpAccess(interp, vFile, write ? JSI_INTACCESS_WRITE : JSI_INTACCESS_READ);
+    if (rc == JSI_OK && write && Jsi_Lstat(interp, vFile, &st) != 0)
+        rc = Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_CREATE);
+    Jsi_DecrRefCount(interp, vFile);
+    return rc;
+}
+
 /*
 ** This is the authentication function.  It appends the authentication
 ** type code and the two arguments to zCmd[] then invokes the result
@@ -1532,6 +1545,14 @@ static int dbAuthCallback(
     const char *zReply;
     Jsi_Db *db = (Jsi_Db*)pArg;
     Jsi_Interp *interp = db->interp;
+    if (Jsi_InterpSafe(interp)) {
+        if (code == SQLITE_ATTACH && (!zArg1 || (zArg1[0] && Jsi_Strcmp(zArg1, ":memory:")
+            && (!Jsi_Strncmp(zArg1, "file:", 5) || dbSafeAccess(interp, zArg1, !sqlite3_db_readonly(db->db, "main")) != JSI_OK))))
+            return SQLITE_DENY;
+        if (code == SQLITE_PRAGMA && zArg1 && zArg2 && !sqlite3_stricmp(zArg1, "temp_store_directory"))
+            return SQLITE_DENY;
+        if (!db->onAuth) return SQLITE_OK;
+    }
     if( db->disableAuth ) return SQLITE_OK;
 
     switch( code ) {
@@ -3387,6 +3408,10 @@ static Jsi_RC SqliteRestoreCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (zSrcFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
     }
+    if (vFile && Jsi_InterpSafe(interp) && dbSafeAccess(interp, zSrcFile, 0) != JSI_OK) {
+        Jsi_DSFree(&dStr);
+        return Jsi_LogErrorExt("Safe accces denied");
+    }
     rc = sqlite3_open_v2(zSrcFile, &pSrc, SQLITE_OPEN_READONLY, 0);
 
     if( rc!=SQLITE_OK ) {
@@ -3522,6 +3547,10 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if (zDestFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
     }
+    if (vFile && Jsi_InterpSafe(interp) && dbSafeAccess(interp, zDestFile, 1) != JSI_OK) {
+        Jsi_DSFree(&dStr);
+        return Jsi_LogErrorExt("Safe accces denied");
+    }
     rc = sqlite3_open(zDestFile, &pDest);
     if( rc!=SQLITE_OK ) {
         Jsi_LogErrorExt("cannot open target database %s: %s", zDestFile, sqlite3_errmsg(pDest));
@@ -3551,7 +3580,7 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 
 void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
-    if (db->onAuth)
+    if (db->onAuth || Jsi_InterpSafe(db->interp))
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
@@ -3602,7 +3631,7 @@ void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
         sqlite3_progress_handler(db->db, 0, 0, 0);
     
     if (!ojdb || db->load != ojdb->load)
-        sqlite3_enable_load_extension(db->db, db->load);
+        sqlite3_enable_load_extension(db->db, db->load && !Jsi_InterpSafe(db->interp));
 
     if (!ojdb || db->timeout != ojdb->timeout)
         sqlite3_busy_timeout( db->db, db->timeout );
@@ -3745,6 +3774,10 @@ static Jsi_RC SqliteConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
         rc = JSI_ERROR;
         goto bail;
     }
+    if (ismem == 0 && Jsi_InterpSafe(interp) && dbSafeAccess(interp, zFile, !db->readonly) != JSI_OK) {
+        Jsi_LogErrorExt("Safe accces denied");
+        goto bail;
+    }
     if (ismem == 0 &&
         (Jsi_InterpAccess(interp, vFile, (db->readonly ? JSI_INTACCESS_READ : JSI_INTACCESS_WRITE)) != JSI_OK
         || (create && Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_CREATE) != JSI_OK))) {
-- 
2.43.0


From 302cdd7dfa9e2866411c13a4649048fee8deb939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 089/192] fix: in safe mode load() ran the code of any shared
 library

---
 src/jsiLoad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiLoad.c b/src/jsiLoad.c
index faf5d39..097d91d 100644
--- a/src/jsiLoad.c
+++ b/src/jsiLoad.c
@@ -44,7 +44,7 @@ typedef struct LoadData {
  */
 Jsi_RC Jsi_LoadLibrary(Jsi_Interp *interp, const char *pathName, bool noInit)
 {
-    if (interp->noLoad)
+    if (interp->noLoad || interp->isSafe)
         return Jsi_LogError("shared lib load is disabled");
 #ifdef __WIN32
     HMODULE handle = LoadLibrary(pathName);
-- 
2.43.0


From 557b7fab80dbd854a561cce2218c7e4529d69203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 090/192] fix: in safe mode File.glob listed any directory

---
 src/jsiFileCmds.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 408dd24..5b51336 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -979,7 +979,12 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
     if (dcp) {
         Jsi_ValueMakeString(interp, &rpPath, dcp);
     }*/
-    if ((n=Jsi_Scandir(interp, rpPath, &namelist, 0, alphasort)) < 0) {
+    if (interp->isSafe && Jsi_InterpAccess(interp, rpPath, JSI_INTACCESS_READ) != JSI_OK
+        && Jsi_FSNative(interp, rpPath))
+        n = -1;
+    else
+        n = Jsi_Scandir(interp, rpPath, &namelist, 0, alphasort);
+    if (n < 0) {
         if (opts->recurse && deep) goto done;
         Jsi_LogError("bad directory");
         Jsi_DecrRefCount(interp, rpPath);
-- 
2.43.0


From 8f462ec2af403a51a61744558895a96e6e692d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 091/192] fix: in safe mode a newline in an allowed exec
 command ran further commands

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 66b8075..77bec4d 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1528,7 +1528,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (restricted || edata.noRedir) {
         // Sanity check command string to disallow shell escapes, redirection, etc.
-        if (strcspn(cp, "<>|;&$`=") != strlen(cp))
+        if (strcspn(cp, "<>|;&$`=\n") != strlen(cp))
             return Jsi_LogError("restricted chars in exec string: %s", cp);
     }
     int isbg = 0, ec = 0;
-- 
2.43.0


From 7f27d9a546531f38a38b51ea30de72d7019996c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 092/192] fix: a sub-interp of a safe interp that set safeMode
 granted itself the directories of its script file

---
 src/jsiInterp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index a58374d..43690da 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1417,7 +1417,9 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
 #endif
     }
     if (interp->safeMode != jsi_safe_None)
-        interp->isSafe = interp->startSafe = 1;
+        interp->isSafe = interp->startSafe = !(parent && parent->isSafe);
+    if (parent && parent->isSafe)
+        interp->isSafe = 1;
     if (!interp->parent) {
         if (interp->isSafe)
             interp->startSafe = 1;
-- 
2.43.0


From ec1be1168f65389196676b0fdb2debc94a0c522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 093/192] fix: a safe interp could reach any directory through
 a sub-interp with lockDown, and enable exec for itself by setting lockDown

---
 src/jsiInterp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 43690da..231699e 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -95,7 +95,7 @@ static Jsi_OptionSpec InterpOptions[] = {
     JSI_OPT(STRKEY,Jsi_Interp, jsppChars,   .help="Line preprocessor when sourcing files. Line starts with first char, and either ends with it, or matches string"),
     JSI_OPT(FUNC,  Jsi_Interp, jsppCallback,.help="Command to preprocess lines that match jsppChars. Call func(interpName:string, opCnt:number)"),
     JSI_OPT(INT,   Jsi_Interp, lockTimeout, .help="Thread time-out for mutex lock acquires (milliseconds)" ),
-    JSI_OPT(STRKEY,Jsi_Interp, lockDown,    .help="Directory to Safe-lockdown interpreter to" ),
+    JSI_OPT(STRKEY,Jsi_Interp, lockDown,    .help="Directory to Safe-lockdown interpreter to", jsi_IIOF ),
     JSI_OPT(CUSTOM,Jsi_Interp, logOpts,     .help="Options for log output to add file/line/time", .flags=0, .custom=Jsi_Opt_SwitchSuboption, .data=jsi_InterpLogOptions),
     JSI_OPT(CUSTOM,Jsi_Interp, log,         .help="Logging flags", .flags=JSI_OPT_CUST_NOCASE,  .custom=Jsi_Opt_SwitchBitset,  .data=jsi_LogCodes),
     JSI_OPT(INT,   Jsi_Interp, maxDepth,    .help="Depth limit of recursive function calls (1000)", .flags=JSI_OPT_LOCKSAFE),
@@ -1371,6 +1371,7 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
     if (parent && parent->isSafe) {
         interp->isSafe = 1;
         interp->safeMode = parent->safeMode;
+        interp->lockDown = NULL;
         if (interp->safeWriteDirs || interp->safeReadDirs || interp->safeExecPattern) {
             Jsi_LogWarn("ignoring safe* options in safe sub-sub-interp");
             if (interp->safeWriteDirs) Jsi_DecrRefCount(interp, interp->safeWriteDirs);
-- 
2.43.0


From 36cacb5d0a913347ebda59a062d1d90f1d80d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:39 +0000
Subject: [PATCH 094/192] fix: Sqlite onAuth and onWalHook callbacks that
 returned a value aborted the process

---
 src/jsiSqlite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 6be07d4..56b8a96 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1235,7 +1235,7 @@ static int dbWalHandler( void *cd, sqlite3 *sdb, const char *zDb, int nEntry ){
     items[2] = Jsi_ValueMakeNumber(interp, NULL, (Jsi_Number)nEntry);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    ret = Jsi_ValueNew(interp);
+    ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, db->onWalHook, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
     if (rc != JSI_OK) {
@@ -1669,7 +1669,7 @@ static int dbAuthCallback(
     items[i++] = Jsi_ValueMakeStringDup(interp, NULL, zArg4 ? zArg4 : "");
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, i, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    ret = Jsi_ValueNew(interp);
+    ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, db->onAuth, vpargs, &ret, NULL);
     Jsi_DecrRefCount(interp, vpargs);
 
-- 
2.43.0


From c9641413c00ef924e9a4c871b988c4d94abdbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:39 +0000
Subject: [PATCH 095/192] fix: Zvfs.create of a file that may not be opened,
 e.g. by safe mode, deleted it

---
 src/jsiZvfs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index cbeb720..cd81f21 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1991,7 +1991,7 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             goto doexit;
         }
         chan = Jsi_Open(interp, Archive, "wb+");
-        create = 1;
+        create = (chan != 0);
     }
     if (chan==0 ) {
         rc = Jsi_LogError("archive create failed for: %s", SS(Archive));
-- 
2.43.0


From 8e859cad5c1a33805285a98d9159c5960098823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:39 +0000
Subject: [PATCH 096/192] fix: in safe mode a symlink outside the granted
 directories could be removed, replaced or read if it pointed inside

---
 src/jsiFileCmds.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 5b51336..f9c92cf 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -58,6 +58,24 @@ static Jsi_RC jsi_SAFEACCESS(Jsi_Interp *interp, Jsi_Value *fname, bool write, b
     return JSI_OK;
 }
 
+/* A command acting on a symlink itself also needs access to the directory holding it. */
+static Jsi_RC jsi_SAFELINK(Jsi_Interp *interp, Jsi_Value *fname, bool write)
+{
+    Jsi_StatBuf st = {};
+    const char *cp, *path = GSVal(fname);
+    if (!interp->isSafe || !Jsi_FSNative(interp, fname) || Jsi_Lstat(interp, fname, &st) || !S_ISLNK(st.st_mode))
+        return JSI_OK;
+    cp = Jsi_Strrchr(path, '/');
+    Jsi_DString dStr = {};
+    Jsi_DSAppendLen(&dStr, (cp ? path : "."), (cp ? cp-path+1 : 1));
+    Jsi_Value *dir = Jsi_ValueNewStringDup(interp, Jsi_DSValue(&dStr));
+    Jsi_DSFree(&dStr);
+    Jsi_IncrRefCount(interp, dir);
+    Jsi_RC rc = jsi_SAFEACCESS(interp, dir, write, 0);
+    Jsi_DecrRefCount(interp, dir);
+    return rc;
+}
+
 static char* getFileTypeCh(int mode, char smode[])
 {
     char c = '-';
@@ -506,6 +524,8 @@ static Jsi_RC FileRenameCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 
     SAFEACCESS(source, 1, 0)
     SAFEACCESS(dest, 1, 1)
+    if (jsi_SAFELINK(interp, source, 1) != JSI_OK || jsi_SAFELINK(interp, dest, 1) != JSI_OK)
+        return JSI_ERROR;
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
         return Jsi_LogError("expected boolean");
     if (vf)
@@ -661,6 +681,8 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     const char *spath = GSVal(source);
     int rc, force = 0; 
     SAFEACCESS(source, 1, 0)
+    if (jsi_SAFELINK(interp, source, 1) != JSI_OK)
+        return JSI_ERROR;
 
     Jsi_StatBuf st;
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
@@ -694,6 +716,8 @@ static Jsi_RC FileReadlinkCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 {
     Jsi_Value *path = Jsi_ValueArrayIndex(interp, args, 0);
     SAFEACCESS(path, 0, 0)
+    if (jsi_SAFELINK(interp, path, 0) != JSI_OK)
+        return JSI_ERROR;
 
     char *linkValue = (char*)Jsi_Malloc(MAXPATHLEN + 1);
 
-- 
2.43.0


From 3a14f6276cf0d3177560fb57f8aed0df244ed187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:33 +0000
Subject: [PATCH 097/192] fix: format: "%.*d" with a negative precision was
 taken as precision 0 instead of none (format("%.*f",-1,1.5) gave "2")

---
 src/jsiFormat.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index af9112b..10bc72d 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -210,12 +210,9 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
             if (Jsi_GetLongFromValue(interp, v, &precision) != JSI_OK)
                 goto error;
 
-            /*
-             * TODO: Check this truncation logic.
-             */
-
+            /* As in C, a negative precision is taken as if it was omitted. */
             if (precision < 0) {
-                precision = 0;
+                gotPrecision = precision = 0;
             }
             argIndex++;
             format += step;
-- 
2.43.0


From 835a5c6d67fb6ea19a9ecb70e2bd0e637e4e22e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:33 +0000
Subject: [PATCH 098/192] fix: format: "%.3q" of a non-string truncated a
 buffer onto itself and returned a NUL and stale text

---
 src/jsiFormat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index 10bc72d..a283c48 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -288,9 +288,13 @@ doprec:
             formatted_bytes = formatted_chars;
             if (gotPrecision && (precision < formatted_chars)) {
                 /* Need to build a (null terminated) truncated string */
-                Jsi_DSSetLength(&pStr, 0);
+                if (formatted_buf == Jsi_DSValue(&pStr))
+                    Jsi_DSSetLength(&pStr, precision);
+                else {
+                    Jsi_DSSetLength(&pStr, 0);
+                    formatted_buf = Jsi_DSAppendLen(&pStr, formatted_buf, precision);
+                }
                 formatted_bytes = formatted_chars = precision;
-                formatted_buf = Jsi_DSAppendLen(&pStr, formatted_buf, precision);
                 //formatted_bytes = Jsi_UtfIndexToOffset(formatted_buf, precision);
             }
             break;
-- 
2.43.0


From ab305841c8015fb6fece97bbee6d26114d758611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:59 +0000
Subject: [PATCH 099/192] fix: format: many flags overflowed the spec buffer,
 and a huge width or precision ("%.3000000000d", "%99999999999d") looped for
 ever or returned uninitialised memory

---
 src/jsiFormat.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index a283c48..b6a88b2 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -48,6 +48,7 @@
 
 #define MAX_INTEGER_WIDTH 24
 #define MAX_FLOAT_WIDTH 320
+#define MAX_FIELD_WIDTH 10000000
 
 /**
  * Apply the printf-like format in fmtObjPtr with the given arguments.
@@ -149,7 +150,7 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
                 continue;
             }
             *p++ = ch;
-            if ((p-spec)>(int)(sizeof(spec)-10)) {
+            if ((p-spec)>(int)(sizeof(spec)-60)) { /* Leave room for width, precision, conversion or error. */
                 msg = "spec too long";
                 goto error;
             }
@@ -219,6 +220,11 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
             step = Jsi_UtfToUniChar(format, &ch);
         }
 
+        if (width<0 || width>MAX_FIELD_WIDTH || precision<0 || precision>MAX_FIELD_WIDTH) {
+            msg = "width or precision too large";
+            goto error;
+        }
+
         /*
          * Step 5. Length modifier.
          */
-- 
2.43.0


From 6d2d7a61e29dd72b82f82091d9027e9546e6eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:59 +0000
Subject: [PATCH 100/192] fix: format: an error after a %S conversion leaked
 the converted text

---
 src/jsiFormat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index b6a88b2..817d7dc 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -439,6 +439,7 @@ error:
     Jsi_LogError("format error at \"%s\": %s", fmtStart, msg);
     Jsi_DSFree(&pStr);
     Jsi_DSFree(&jStr);
+    Jsi_DSFree(&sStr);
     Jsi_DSFree(dStr);
     if (num_buffer!=stat_buf)
         Jsi_Free(num_buffer);
-- 
2.43.0


From 752e5b050f66a6fc2999b7a53d6f213398a9c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:10 +0000
Subject: [PATCH 101/192] fix: a timer whose due time fell on an exact second
 fired at once

---
 src/jsiCmds.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 77bec4d..69c425b 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -270,8 +270,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             break;
         case JSI_EVENT_TIMER:
             if (cur_sec <= evPtr->when_sec && (cur_sec != evPtr->when_sec || cur_ms < evPtr-> when_ms)) {
-                if (evPtr->when_sec && evPtr->when_ms)
-                    continue;
+                continue;
             }
             cnt++;
             evPtr->count++;
-- 
2.43.0


From f0d4db6970fefac288a201a3e11beb62d661506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:10 +0000
Subject: [PATCH 102/192] fix: update(ms) returned up to a second early when
 the clock passed a second boundary

---
 src/jsiCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 69c425b..869af39 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -423,7 +423,7 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         if (cur_sec == start_sec)
             diftime = (long long)(cur_ms-start_ms);
         else
-            diftime = (cur_sec-start_sec)*1000LL + cur_ms + (1000-start_ms);
+            diftime = (cur_sec-start_sec)*1000LL + cur_ms - start_ms;
         if (udata.minTime>0 && diftime >= (long long)udata.minTime)
             break;
         if (udata.maxPasses && ++lcnt >= udata.maxPasses)
-- 
2.43.0


From 6f07723931efc04ed0d4d42b0a3f0df569b0c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:10 +0000
Subject: [PATCH 103/192] fix: update ignored its maxEvents option

---
 src/jsiCmds.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 869af39..04add78 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -393,6 +393,7 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     jsiGetTime(&start_sec, &start_ms);
     jsiUpdateData udata = {};
     udata.sleep = 1;
+    udata.maxEvents = -1;
        
     if (opts != NULL) {
         Jsi_Number dms = 0;
@@ -407,11 +408,12 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             udata.minTime = (unsigned long)dms;
     }
   
-    while (1) {
+    maxEvents = udata.maxEvents;
+    while (maxEvents<0 || cnt<maxEvents) {
         long long diftime;
         if (!interp->EventHdlId && (interp->interpStrEvents || Jsi_DSLength(&interp->interpEvalQ)))
             jsi_AddEventHandler(interp); 
-        int ne = Jsi_EventProcess(interp, maxEvents);
+        int ne = Jsi_EventProcess(interp, maxEvents<0 ? maxEvents : maxEvents-cnt);
         if (ne<0)
             break;
         cnt += ne;
-- 
2.43.0


From cd29d50be662fb6b8253cc8c315426c52b6aca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:10 +0000
Subject: [PATCH 104/192] fix: a nested update counted the timer whose handler
 called it as run again

---
 src/jsiCmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 04add78..8106640 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -260,6 +260,8 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         SIGASSERT(evPtr,EVENT);
         if ((int)evPtr->id > newIdx) /* Avoid infinite loop of event creating events. */
             continue;
+        if (evPtr->busy)
+            continue;
         switch (evPtr->evType) {
         case JSI_EVENT_SIGNAL:
 #ifndef JSI_OMIT_SIGNAL   /* TODO: win signals? */
@@ -280,8 +282,6 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         default:
             assert(0);
         }
-        if (evPtr->busy)
-            continue;
         evPtr->busy = 1;
         if (evPtr->handler) {
             rc = evPtr->handler(interp, evPtr->data);
-- 
2.43.0


From ad4a3a4cdea307e1103efce75f97242704f1a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:10 +0000
Subject: [PATCH 105/192] fix: a timer handler that cleared itself or another
 timer, or called update, made the event loop use freed events; timers due in
 the same pass ran in hash order instead of by due time; clearing the id of a
 socket event freed it under the socket

---
 src/jsiCmds.c | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 8106640..0021793 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -236,6 +236,16 @@ Jsi_Event* Jsi_EventNew(Jsi_Interp *interp, Jsi_EventHandlerProc *callback, void
     return evPtr;
 }
 
+typedef struct { uintptr_t id; long when_sec, when_ms; } jsiEventDue;
+
+static int jsiEventDueCmp(const void *a, const void *b)
+{
+    const jsiEventDue *e1 = (const jsiEventDue *)a, *e2 = (const jsiEventDue *)b;
+    if (e1->when_sec != e2->when_sec) return (e1->when_sec < e2->when_sec ? -1 : 1);
+    if (e1->when_ms != e2->when_ms) return (e1->when_ms < e2->when_ms ? -1 : 1);
+    return (e1->id < e2->id ? -1 : e1->id > e2->id);
+}
+
 /* Process events and return count. */
 int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
 {
@@ -248,16 +258,27 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
     long cur_sec, cur_ms;
     jsiGetTime(&cur_sec, &cur_ms);
     Jsi_Value *vpargs = NULL;
+    int i, num = 0;
 
     /*if (Jsi_MutexLock(interp, interp->Mutex) != JSI_OK)
         return JSI_ERROR;*/
 
+    /* Handlers may add or delete any event, so walk a list of ids, in order of due time. */
+    jsiEventDue *due = (jsiEventDue*)Jsi_Malloc(sizeof(*due)*(Jsi_HashSize(interp->eventTbl)+1));
     for (hPtr = Jsi_HashSearchFirst(interp->eventTbl, &search);
             hPtr != NULL; hPtr = Jsi_HashSearchNext(&search)) {
 
         if (!(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
             continue;
         SIGASSERT(evPtr,EVENT);
+        due[num].id = (uintptr_t)Jsi_HashKeyGet(hPtr);
+        due[num].when_sec = evPtr->when_sec;
+        due[num++].when_ms = evPtr->when_ms;
+    }
+    qsort(due, num, sizeof(*due), jsiEventDueCmp);
+    for (i=0; i<num; i++) {
+        if (!(hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)due[i].id)) || !(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
+            continue;
         if ((int)evPtr->id > newIdx) /* Avoid infinite loop of event creating events. */
             continue;
         if (evPtr->busy)
@@ -292,13 +313,19 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             }
             if (!nret)
                 nret = Jsi_ValueNew1(interp);
-            rc = Jsi_FunctionInvoke(interp, evPtr->funcVal, vpargs, &nret, NULL);
+            Jsi_Value *funcVal = evPtr->funcVal;
+            Jsi_IncrRefCount(interp, funcVal);
+            rc = Jsi_FunctionInvoke(interp, funcVal, vpargs, &nret, NULL);
+            Jsi_DecrRefCount(interp, funcVal);
         }
-        evPtr->busy = 0;
         if (interp->deleting) {
             cnt = -1;
             goto bail;
         }
+        if ((hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)due[i].id)) && (evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
+            evPtr->busy = 0;
+        else
+            evPtr = NULL; /* Was cleared by the handler. */
         if (rc != JSI_OK) {
             if (interp->exited) {
                 cnt = rc;
@@ -306,7 +333,8 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             }
             Jsi_LogError("event function call failure");
         }
-        if (evPtr->once) {
+        if (!evPtr) {
+        } else if (evPtr->once) {
             Jsi_EventFree(interp, evPtr);
         } else {
             evPtr->when_sec = cur_sec + evPtr->initialms / 1000;
@@ -320,6 +348,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             break;
     }
 bail:
+    Jsi_Free(due);
     if (vpargs)
         Jsi_DecrRefCount(interp, vpargs);
     if (nret)
@@ -505,6 +534,8 @@ static Jsi_RC clearIntervalCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)id);
     if (hPtr == NULL) 
         return Jsi_LogError("id not found: %" PRId64, (Jsi_Wide)id);
+    if (((Jsi_Event*)Jsi_HashValueGet(hPtr))->handler)
+        return Jsi_LogError("can not clear internal handler");
     Jsi_HashEntryDelete(hPtr);
     return JSI_OK;
 }
-- 
2.43.0


From b9277a01cf3b5987de5a7766066d0b6cc2243ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:02 +0000
Subject: [PATCH 106/192] fix: an error in a timer handler run by update() was
 delivered to the next catch in place of that catch its own error

---
 src/jsiCmds.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 0021793..90a190d 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -332,6 +332,9 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
                 goto bail;
             }
             Jsi_LogError("event function call failure");
+            interp->errMsgBuf[0] = 0;
+            if (interp->ps->last_exception)
+                Jsi_ValueReset(interp, &interp->ps->last_exception);
         }
         if (!evPtr) {
         } else if (evPtr->once) {
-- 
2.43.0


From 69bb238f671d388ba703bee90b6984d9faec141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 107/192] fix: dictionary comparison was cyclic for an
 uppercase letter, a lowercase letter and one of [ \ ] ^ _ `, so sorting by
 dict gave no order

---
 src/jsiChar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiChar.c b/src/jsiChar.c
index c2cfc5b..cd2cc9d 100644
--- a/src/jsiChar.c
+++ b/src/jsiChar.c
@@ -250,14 +250,14 @@ Jsi_DictionaryCompare( const char *left, const char *right)
     }
     diff = UCHAR(*left) - UCHAR(*right);
     if (diff) {
-      if (isupper(UCHAR(*left)) && islower(UCHAR(*right))) {
+      if (isupper(UCHAR(*left)) && !isupper(UCHAR(*right))) {
         diff = UCHAR(tolower(*left)) - UCHAR(*right);
         if (diff) {
           return diff;
         } else if (secondaryDiff == 0) {
           secondaryDiff = -1;
         }
-      } else if (isupper(UCHAR(*right)) && islower(UCHAR(*left))) {
+      } else if (isupper(UCHAR(*right)) && !isupper(UCHAR(*left))) {
         diff = UCHAR(*left) - UCHAR(tolower(UCHAR(*right)));
         if (diff) {
           return diff;
-- 
2.43.0


From db34a1552e4af88e8e17504ff85160583e78ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 108/192] fix: a STRINGKEY hash table lost its entries when it
 grew and could not delete entries (they were filed under one bucket and
 looked for in another)

---
 src/jsiHash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index 6f09d95..e3221d9 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -371,7 +371,7 @@ RebuildTable(Jsi_Hash *tablePtr)
     tablePtr->mask = tablePtr->numBuckets - 1;
 
  
-    if (tablePtr->keyType == JSI_KEYS_ONEWORD) {
+    if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
 
         for (oldChainPtr = oldBuckets; oldChainPtr < endPtr; oldChainPtr++) {
             for (hPtr = *oldChainPtr; hPtr != NULL; hPtr = nextPtr) {
@@ -459,7 +459,7 @@ Jsi_HashEntryDelete(Jsi_HashEntry *entryPtr)
 #endif
     if (tablePtr->opts.lockHashProc && (*tablePtr->opts.lockHashProc)(tablePtr, 1) != JSI_OK)
         return 0;
-    if (tablePtr->keyType == JSI_KEYS_ONEWORD) {
+    if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
         hindex = RANDOM_INDEX(tablePtr, (const void *)entryPtr->hval);
     } else {
         hindex = (entryPtr->hval & tablePtr->mask);
-- 
2.43.0


From 5caa3a92d68d031d6dd705c6034eaaf95f09d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 109/192] fix: Jsi_HashClear left the freed buckets and the old
 entry count in the table

---
 src/jsiHash.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index e3221d9..ceadc42 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -513,7 +513,14 @@ Jsi_HashClear(Jsi_Hash *tablePtr)
     
     if (tablePtr->buckets != tablePtr->staticBuckets) {
         Jsi_Free(tablePtr->buckets);
+        tablePtr->buckets = tablePtr->staticBuckets;
+        memset(tablePtr->staticBuckets, 0, sizeof(tablePtr->staticBuckets));
+        tablePtr->numBuckets = JSI_SMALL_HASH_TABLE;
+        tablePtr->rebuildSize = JSI_SMALL_HASH_TABLE * REBUILD_MULTIPLIER;
+        tablePtr->downShift = DOWNSHIFT_START;
+        tablePtr->mask = (jsi_Hash)(tablePtr->numBuckets - 1);
     }
+    tablePtr->numEntries = 0;
     if (tablePtr->opts.lockHashProc)
         (*tablePtr->opts.lockHashProc)(tablePtr, 0);
 }
-- 
2.43.0


From 4548883624326731d844b8fe4d49e1d9a499a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 110/192] fix: tree keys of type ONEWORD were compared by the
 low 32 bits of their difference, so different pointers were the same key

---
 src/jsiTree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index ba250f7..ceabde1 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -270,7 +270,7 @@ static int StringCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 
 static int OneWordCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 {
-    return ((uintptr_t )key1 - (uintptr_t)key2);
+    return ((uintptr_t)key1 > (uintptr_t)key2) - ((uintptr_t)key1 < (uintptr_t)key2);
 }
 
 static int TreeArrayCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
-- 
2.43.0


From 3fb358ef70ba1207fc31d7a4487b58a2336f12ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 111/192] fix: a tree with string keys took "1,2" and "12" for
 the same key

---
 src/jsiTree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index ceabde1..6c4d0c6 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -264,7 +264,8 @@ static int StringPtrCompare(Jsi_Tree *treePtr, const void *key1, const void *key
 
 static int StringCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 {
-    return Jsi_DictionaryCompare((char*)key1, (char*)key2);
+    int rc = Jsi_DictionaryCompare((char*)key1, (char*)key2);
+    return rc ? rc : Jsi_Strcmp((char*)key1, (char*)key2);
     //return Jsi_Strcmp((char*)key1, (char*)key2);
 }
 
-- 
2.43.0


From e435757898e9e1d7eb1999e8705945de49324b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 112/192] fix: Jsi_TreeClear rebalanced the tree while taking
 it apart: it used freed entries or lost some

---
 src/jsiTree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 6c4d0c6..32c76be 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -502,7 +502,10 @@ void Jsi_TreeClear (Jsi_Tree *treePtr)
     SIGASSERTV(treePtr, TREE);
     if (treePtr->opts.lockTreeProc && (*treePtr->opts.lockTreeProc)(treePtr, 1) != JSI_OK)
         return;
+    treePtr->flags.destroyed = 1; /* No rebalancing of the dying tree. */
     destroy_node(treePtr->opts.interp, treePtr->root);
+    treePtr->flags.destroyed = 0;
+    treePtr->epoch++;
     treePtr->root = NULL;
     if (treePtr->opts.lockTreeProc)
         (*treePtr->opts.lockTreeProc)(treePtr, 0);
-- 
2.43.0


From 25b6c6724601e0e5436df1d5077fbbd71bd22ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 113/192] fix: deleting an entry with two children from a tree
 with struct keys dropped the wrong entry and a subtree with it

---
 src/jsiTree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 32c76be..8fe3799 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -626,6 +626,7 @@ int Jsi_TreeEntryDelete (Jsi_TreeEntry *entryPtr)
                 *cd = *cs;
                 *cs = ct;
             }
+            n = pred;
         }
                 
         }
-- 
2.43.0


From 1d02830946a79aa827f417ae5e2394bad79d9beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 114/192] fix: a pre-order tree search was taken for a search
 from a NULL key (same flag bit)

---
 src/jsi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsi.h b/src/jsi.h
index bfe25a0..ccc8419 100644
--- a/src/jsi.h
+++ b/src/jsi.h
@@ -181,7 +181,7 @@ typedef enum {
     
     JSI_TREE_ORDER_IN=0, JSI_TREE_ORDER_PRE=0x10, JSI_TREE_ORDER_POST=0x20, // Jsi_TreeSearchFirst()
     JSI_TREE_ORDER_LEVEL=0x30, JSI_TREE_ORDER_MASK=0x30,
-    JSI_TREE_SEARCH_KEY=0x10, // Use key even if NULL
+    JSI_TREE_SEARCH_KEY=0x40, // Use key even if NULL
     JSI_TREE_USERFLAG_MASK=0x7f,
     JSI_LIST_REVERSE=0x8, // Jsi_ListSearchFirst
     JSI_MUTEX_RECURSIVE=2,
-- 
2.43.0


From 7b12f555924cfcb08a7560845f2d25b8718aec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 115/192] fix: a pre-order tree search skipped and repeated
 entries

---
 src/jsiTree.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 8fe3799..8dfcb3d 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -713,10 +713,9 @@ static Jsi_TreeEntry *searchAdd(Jsi_TreeSearch *searchPtr,  Jsi_TreeEntry *hPtr)
                 if (searchPtr->top<=0) return NULL;
                 hPtr = searchPtr->Ptrs[--searchPtr->top];
             }
-            searchPtr->Ptrs[searchPtr->top++] = hPtr;
             if (hPtr->left) searchPtr->Ptrs[searchPtr->top++] = hPtr->left;
             if (hPtr->right) searchPtr->Ptrs[searchPtr->top++] = hPtr->right;
-            break;
+            return hPtr;
             
         case JSI_TREE_ORDER_IN:
             while (1) {
-- 
2.43.0


From ba07a6b6027fb6c401f067d9a757d9963677bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 116/192] fix: a tree search with over 200 pending entries lost
 them

---
 src/jsiTree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 8dfcb3d..d0f663c 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -649,9 +649,10 @@ static void searchSpace(Jsi_TreeSearch *searchPtr, int n)
 {
     if ((searchPtr->top+n) >= searchPtr->max) {
         int i, cnt = (searchPtr->max *= 2);
-        if (searchPtr->Ptrs == searchPtr->staticPtrs)
+        if (searchPtr->Ptrs == searchPtr->staticPtrs) {
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Calloc(cnt, sizeof(Jsi_TreeEntry*));
-        else
+            memcpy(searchPtr->Ptrs, searchPtr->staticPtrs, sizeof(searchPtr->staticPtrs));
+        } else
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Realloc(searchPtr->Ptrs, cnt* sizeof(Jsi_TreeEntry*));
         for (i=0; i<cnt; i++)
             SIGINIT((searchPtr->Ptrs[i]),TREEENTRY);
-- 
2.43.0


From a21ff6c541de14e3c73eecbfdb2ce87678eb3522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 117/192] fix: lists kept freed entries: as previous of the new
 head after a pop, as tail after a clear, and as the sole entry after its
 deletion

---
 src/jsiUtils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index d3b1327..8ae6932 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1533,6 +1533,7 @@ void Jsi_ListClear(Jsi_List *list) {
             (list->opts.freeListProc)(list->opts.interp, l, l->value);
         Jsi_ListEntryDelete(l);
     }
+    list->tail = NULL;
     list->numEntries = 0;
 }
  
@@ -1582,8 +1583,10 @@ Jsi_ListEntry* Jsi_ListPop(Jsi_List *list, Jsi_ListEntry *item)
     if (item == list->head) {
         if (list->head == list->tail)
             list->head = list->tail = NULL;
-        else
+        else {
             list->head = list->head->next;
+            list->head->prev = NULL;
+        }
     }
     else if (item == list->tail) {
         list->tail = list->tail->prev;
@@ -1595,6 +1598,7 @@ Jsi_ListEntry* Jsi_ListPop(Jsi_List *list, Jsi_ListEntry *item)
     }
     list->numEntries--;
     item->next = item->prev = NULL;
+    item->list = NULL;
     return item;
 }
 
@@ -1611,7 +1615,7 @@ Jsi_ListEntry *Jsi_ListEntryNew(Jsi_List* list, const void *value, Jsi_ListEntry
 
 int Jsi_ListEntryDelete(Jsi_ListEntry *l) {
     SIGASSERT(l, LISTENTRY);
-    if (l->next || l->prev)
+    if (l->next || l->prev || (l->list && l->list->head == l))
         Jsi_ListPop(l->list, l);
     Jsi_Free(l);
     return 1;
-- 
2.43.0


From 735e42a72c2d2b854eb1005d95749d83b9d0019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 118/192] fix: growing an empty dynamic string left its value
 uninitialised

---
 src/jsiDString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index 7335fe7..6c690da 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -207,7 +207,7 @@ uint Jsi_DSSetLength(Jsi_DString *dsPtr, uint length)
                 LogError("malloc failed %d", dsPtr->spaceAvl+1);
                 return -1;
             }
-            if (isStatic && dsPtr->len>0)
+            if (isStatic)
                 memcpy(newString, dsPtr->Str, (size_t) (dsPtr->len+1));
             dsPtr->strA = newString;
         }
-- 
2.43.0


From af753ab60a45d4d50ed0b32b868d0d33772ab97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 119/192] fix: Jsi_DSPrintf of over 8191 bytes, or into a
 string with that much room, left the length unchanged and reused a consumed
 va_list

---
 src/jsiDString.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index 6c690da..9ad2b6a 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -171,15 +171,19 @@ Jsi_DSPrintf(Jsi_DString *dsPtr, const char *fmt, ...)
             return jsi_DSValue(dsPtr);
         }
         dstr = jsi_DSValue(dsPtr);
-        m = vsnprintf(dstr+len, len+1, fmt, argList);
+        va_end(argList);
+        va_start(argList, fmt);
+        m = vsnprintf(dstr+len, n+1, fmt, argList);
         if (m != n) {
             LogError("len mismatch: %d != %d",  m, n);
             va_end(argList);
             return dstr;
         }
+        dsPtr->len += n;
     } else if (needAppend) {
         Jsi_DSAppendLen(dsPtr, buf, n);
-    }
+    } else
+        dsPtr->len += n;
     va_end(argList);
     return jsi_DSValue(dsPtr);
 }
-- 
2.43.0


From b8a8b35e1713d284358f4f31bae6f0fbf9960f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:38 +0000
Subject: [PATCH 120/192] fix: Jsi_DSFree of a string declared with an initial
 value and not used yet left the value in it

---
 src/jsiDString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index 9ad2b6a..b6be854 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -72,7 +72,7 @@ void Jsi_DSInit(Jsi_DString *dsPtr)
 void
 Jsi_DSFree(Jsi_DString *dsPtr)
 {
-    if (dsPtr->spaceAvl == 0) return;
+    if (dsPtr->spaceAvl == 0 && !dsPtr->strA) return;
     jsi_DsCheckInit(dsPtr);
     if (dsPtr->strA)
         Jsi_Free((char*)dsPtr->strA);
-- 
2.43.0


From 9bbbf7eb7292687df31656992ea3197de81f4130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 121/192] fix: an operator within three characters of the end
 of a line swallowed the newline early, so the tokens in between got the
 number of the next line in error messages

---
 src/jsiInt.h    |  1 +
 src/jsiLexer.c  | 10 ++++++++--
 src/jsiPstate.c |  1 +
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 3bf812e..7b748fd 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -812,6 +812,7 @@ typedef struct jsi_Lexer {
     int cur;                /* LT_STRING, current char */
     int cur_line;           /* current line no. */
     int cur_char;           /* current column no. */
+    int nlpend;             /* newlines already read, beyond the characters in unch */
     int inStr;
     jsi_Pstate *pstate;
 } jsi_Lexer;
diff --git a/src/jsiLexer.c b/src/jsiLexer.c
index f5fcecd..f54f2fb 100644
--- a/src/jsiLexer.c
+++ b/src/jsiLexer.c
@@ -18,6 +18,7 @@ static int lexer_getchar(jsi_Lexer *lex)
         } else {
             c = lex->d.str[lex->cur];
             if (c != 0) lex->cur++;
+            lex->nlpend = 0;
         }
         if (lex->inStr && c == '\\') {
             int nc = (lex->ungot ? lex->unch[lex->ungot-1] : lex->d.str[lex->cur-1]);
@@ -54,6 +55,8 @@ static void lexer_ungetc(int c, jsi_Lexer *lex)
         lex->cur--;
     } else if ((lex->ungot+2)<(int)sizeof(lex->unch)) {
         lex->unch[lex->ungot++] = c;
+        if (lex->ltype == LT_STRING && lex->ungot == 1)
+            for (lex->nlpend = 0; lex->nlpend < lex->cur && lex->d.str[lex->cur-1-lex->nlpend] == '\n'; lex->nlpend++);
     }
     //printf(">%2x\n",c);
 }
@@ -385,11 +388,11 @@ static int jsi_do_sign(jsi_Lexer *lex)
 }
 
 #define LOCATION_START(loc, lex) do {       \
-    (loc)->first_line = (lex)->cur_line;    \
+    (loc)->first_line = (lex)->cur_line - (lex)->nlpend;    \
     (loc)->first_column = (lex)->cur_char;  \
     } while(0)
 #define LOCATION_END(loc, lex) do {         \
-    (loc)->last_line = (lex)->cur_line;     \
+    (loc)->last_line = (lex)->cur_line - (lex)->nlpend;     \
     (loc)->last_column = (lex)->cur_char;   \
     } while(0)
 
@@ -545,8 +548,11 @@ void yyerror(YYLTYPE *yylloc, jsi_Pstate *ps, const char *msg)
     Jsi_Interp *interp = ps->interp;
     interp->errLine = yylloc->first_line;
     interp->errCol = yylloc->first_column;
+    jsi_Pline *opl = interp->parseLine;
+    interp->parseLine = yylloc;
     Jsi_LogParse("%s:%d.%d: error: %s", interp->framePtr->filePtr->fileName, yylloc->first_line, 
         yylloc->first_column, msg);
+    interp->parseLine = opl;
     ps->err_count++;
 }
 #endif
diff --git a/src/jsiPstate.c b/src/jsiPstate.c
index aa70bfc..dc799bb 100644
--- a/src/jsiPstate.c
+++ b/src/jsiPstate.c
@@ -207,6 +207,7 @@ void jsi_PstateClear(jsi_Pstate *ps)
     l->ltype = LT_NONE;
     l->last_token = 0;
     l->cur_line = 1;
+    l->nlpend = 0;
     l->cur_char = 0;
     l->cur = 0;
     ps->err_count = 0;
-- 
2.43.0


From 4decce81e4ecf44ebeff2d3ca89204c3170ce91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:01 +0000
Subject: [PATCH 122/192] fix: an uncaught throw of anything but a string ended
 the script without a message or a position

---
 src/jsiEval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 09c2603..18b1872 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -370,6 +370,10 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
                     Jsi_LogError("%s", str);                    
                     interp->dumpedStack = ov;
                 }
+            } else if (top && !Jsi_Strcmp(nam, "throw")) {
+                Jsi_DString dStr = {};
+                Jsi_LogError("%s near %s", nam, Jsi_ValueGetDString(interp, top, &dStr, JSI_OUTPUT_JSON));
+                Jsi_DSFree(&dStr);
             }
             return JSI_ERROR;
         }
-- 
2.43.0


From fdc6d82f2dcd94e4be30e70268e0a9519f015323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:12 +0000
Subject: [PATCH 123/192] fix: a non-string thrown from a catch handler ended
 the script without a message or a position

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 18b1872..7061513 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -370,7 +370,7 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
                     Jsi_LogError("%s", str);                    
                     interp->dumpedStack = ov;
                 }
-            } else if (top && !Jsi_Strcmp(nam, "throw")) {
+            } else if (top && (!Jsi_Strcmp(nam, "throw") || (!Jsi_Strcmp(nam, "finally") && top == ps->last_exception && !Jsi_ValueIsUndef(interp, top)))) {
                 Jsi_DString dStr = {};
                 Jsi_LogError("%s near %s", nam, Jsi_ValueGetDString(interp, top, &dStr, JSI_OUTPUT_JSON));
                 Jsi_DSFree(&dStr);
-- 
2.43.0


From 4192cfe8916e5b1825d0ca6c98a50863f1871528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:12 +0000
Subject: [PATCH 124/192] fix: Info.error() gave line 0 for every caught error

---
 src/jsiUtils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 8ae6932..12dc670 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -221,6 +221,7 @@ Jsi_RC Jsi_LogMsg(Jsi_Interp *interp, Jsi_PkgOpts* popts, uint code, const char
                 
                 vsnprintf(interp->errMsgBuf, sizeof(interp->errMsgBuf), format, va);
                 //interp->errMsgBuf[sizeof(interp->errMsgBuf)-1] = 0;
+                jsi_GetLineOfs(interp, fp, &line, &lofs, &curFile);
                 interp->errFile =  curFile;
                 interp->errLine = line;
                 emsg = interp->errMsgBuf;
-- 
2.43.0


From 37996e1111239ef1fa9151230111810d941cf71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:12 +0000
Subject: [PATCH 125/192] fix: realpath and join of a path that does not exist
 kept .. and . parts or trailing slashes, and never left the first directory
 by ..

---
 src/jsiFilesys.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 4fb5232..be6b2fc 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1338,7 +1338,6 @@ static void DeBackSlashify(char *cp) {
 
 static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
     char **argv; int argc, i;
-    if (!Jsi_Strstr(path, "./")) return;
     Jsi_DString dStr = {}, eStr = {};
     if (path[0] != '/' && Jsi_Strstr(path, "..")) {
         char *npath = Jsi_GetCwd(interp, &eStr);
@@ -1362,7 +1361,7 @@ static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
         } else if (!Jsi_Strcmp(argv[i],"..")) {
             char *pcp = Jsi_DSValue(&dStr), *lcp = pcp;
             pcp = Jsi_Strrchr(pcp, '/');
-            if (pcp && pcp != Jsi_DSValue(&dStr)) {
+            if (pcp) {
                 *pcp = 0;
                 Jsi_DSSetLength(&dStr, Jsi_Strlen(lcp));
             }
@@ -1372,7 +1371,7 @@ static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
         }
     }
     Jsi_DSFree(&sStr);
-    Jsi_Strcpy(path, Jsi_DSValue(&dStr));
+    Jsi_Strcpy(path, Jsi_DSLength(&dStr) ? Jsi_DSValue(&dStr) : "/");
     Jsi_DSFree(&dStr);
     Jsi_DSFree(&eStr);
 }
-- 
2.43.0


From 5b1fd8bb2373da16aa655b3591a985286d7276ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:02 +0000
Subject: [PATCH 126/192] x

fix: normalize kept a leading /./, and gave an empty path for //
---
 src/jsiFilesys.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index be6b2fc..69f3c9f 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1280,7 +1280,7 @@ char* Jsi_NormalPath(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
         goto done;
     /* Need to remove //, /./, /../ */
     nmax = n--;
-    while (n>0) {
+    while (n>=0) {
         if (slens[n]<=0) {
             n--;
             continue;
@@ -1312,7 +1312,7 @@ char* Jsi_NormalPath(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
         }
     }
     Jsi_DSSetLength(dStr, 0);
-    Jsi_DSAppend(dStr, Jsi_DSValue(&sStr), NULL);
+    Jsi_DSAppend(dStr, Jsi_DSLength(&sStr) ? Jsi_DSValue(&sStr) : "/", NULL);
 done:
     Jsi_DSFree(&sStr);
     return Jsi_DSValue(dStr);
-- 
2.43.0


From fc79343470ac54536500080f34c2bc4ce2ff2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:11 +0000
Subject: [PATCH 127/192] fix: strptime took every digit of a fraction as
 milliseconds (.123456 added 123 seconds)

---
 src/jsiCmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 90a190d..aec9488 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2059,8 +2059,9 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
             Jsi_LogError("datetime parse failed");
     } else {
         if (*rv == '.' && isdigit(rv[1]) && isdigit(rv[2]) && isdigit(rv[3])) {
-            ms = atof(rv+1);
+            ms = (rv[1]-'0')*100 + (rv[2]-'0')*10 + (rv[3]-'0');
             rv += 4;
+            while (isdigit(*rv)) rv++;
         }
         {
             int th, ts;
-- 
2.43.0


From d2e2ccd7fbd2883fa826883dbac4881e039f93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:11 +0000
Subject: [PATCH 128/192] fix: strptime could not parse any text with %f, which
 strftime writes

---
 src/jsiCmds.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index aec9488..c00a543 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2040,10 +2040,19 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
     if (fmt && fmt[0]) {
         const char *efp = Jsi_Strstr(fmt, "%f");
         if (efp && efp > fmt && efp[-1] != '%' && (Jsi_Strlen(fmt)+10)<(int)sizeof(fmt1)) {
-            snprintf(fmt1, sizeof(fmt1), "%.*s:%%S.", (int)(efp-fmt), fmt);
+            snprintf(fmt1, sizeof(fmt1), "%.*s", (int)(efp-fmt), fmt);
             fmt = fmt1;
-        }
+        } else
+            efp = NULL;
         rv = strptime(str, fmt, &tm);
+        if (rv && efp) {
+            if (isdigit(rv[0]) && isdigit(rv[1]) && isdigit(rv[2])) {
+                ms = (rv[0]-'0')*100 + (rv[1]-'0')*10 + (rv[2]-'0');
+                rv += 3;
+                if (efp[2]) rv = strptime(rv, efp+2, &tm);
+            } else
+                rv = NULL;
+        }
     } else {
         if (fmt) j++;
         while (timeFmts[j]) {
-- 
2.43.0


From 136dc74666d711edc8937a4bad830bda285f146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 129/192] fix: strptime with utc was an hour off for times
 skipped by daylight saving, and refused the last second of 1969

---
 src/jsiCmds.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index c00a543..135f4f7 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2075,6 +2075,10 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
         {
             int th, ts;
             char ss[3];
+#ifndef __WIN32
+            struct tm utm = tm;
+#endif
+            tm.tm_wday = -1;
             t = mktime(&tm);
             if (rv[0] == ' ') rv++;
             if (rv[0] && sscanf(rv, "%[+-]%2d:%2d", ss, &th, &ts) == 3) {
@@ -2086,11 +2090,13 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
                 time_t tt = 0;
                 tofs += (int)time(&tt);
 #else
-                tofs += tm.tm_gmtoff;
+                utm.tm_wday = -1;
+                t = timegm(&utm); /* via local time, hours skipped there would be lost. */
+                tm.tm_wday = utm.tm_wday;
 #endif
             }
         }
-        if (t==-1) {
+        if (t==-1 && tm.tm_wday==-1) {
             rc = JSI_ERROR;
             if (!noMsg)
                 Jsi_LogError("mktime failed");
-- 
2.43.0


From 6221464d650fa88f1c6080fb0175c041d0fff561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 130/192] fix: strftime of an instant before 1970 with a
 fraction of a second was a second late with a negative fraction; NaN and
 times out of range gave made-up dates

---
 src/jsiCmds.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 135f4f7..49da922 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -5,6 +5,7 @@
 char *strptime(const char *buf, const char *fmt, struct tm *tm);
 #endif
 #include <errno.h>
+#include <math.h>
 #include <sys/stat.h>
 #include <sys/time.h>
 #include <signal.h>
@@ -2115,7 +2116,10 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
     Jsi_RC rc = JSI_OK;
     fmt2[0] = 0;
     
-    tt = (time_t)(num/1000);
+    if (!(num >= -67768040609740800e3 && num <= 67768036191676799e3)) /* years which fit an int */
+        return Jsi_LogError("time out of range");
+    num = floor(num);
+    tt = (time_t)floor(num/1000);
     if (fmt==NULL)
         fmt = timeFmts[0];
     else if (*fmt == 0) {
@@ -2155,7 +2159,7 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
     else {
         Jsi_DSAppendLen(dStr, buf, -1);
         if (efp) {
-            snprintf(buf, sizeof(buf), "%3.3d", (int)(((Jsi_Wide)num)%1000));
+            snprintf(buf, sizeof(buf), "%3.3d", (int)((Jsi_Wide)num-(Jsi_Wide)tt*1000));
             Jsi_DSAppendLen(dStr, buf[1]=='.'?buf+2:buf, -1);
         }
     }
-- 
2.43.0


From de06ec1737be4704d636a2a225bd37772afc7495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 131/192] fix: a command ended by a signal counted as a success
 with exit code 0

---
 src/jsiCmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 49da922..10d6687 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1639,6 +1639,8 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 exitCode = ((ec=pclose(fp))>>8);
             else
                 exitCode = ((ec=jsi_pclose(fp, cpid))>>8);
+            if (exitCode==0 && (ec&0x7f))
+                exitCode = 128+(ec&0x7f); /* ended by a signal, as the shell reports it. */
         }
     }
     if (exitCode && edata.noError==0 && edata.retCode==0 && edata.retAll==0) {
-- 
2.43.0


From 502dcefaf46130d624d564bdd326ddf6cc8d9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 132/192] fix: a command that does not read its input to the
 end killed the calling script by SIGPIPE

---
 src/jsiCmds.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 10d6687..b7f3089 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1623,6 +1623,9 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         if (!fp) 
             exitCode = errno;
         else {
+#ifndef __WIN32
+            void (*osig)(int) = signal(SIGPIPE, SIG_IGN);
+#endif
             if (edata.inputStr) {
                 edata.retCode = 1;
                 edata.retval = 0;
@@ -1639,6 +1642,9 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 exitCode = ((ec=pclose(fp))>>8);
             else
                 exitCode = ((ec=jsi_pclose(fp, cpid))>>8);
+#ifndef __WIN32
+            signal(SIGPIPE, osig);
+#endif
             if (exitCode==0 && (ec&0x7f))
                 exitCode = 128+(ec&0x7f); /* ended by a signal, as the shell reports it. */
         }
-- 
2.43.0


From d2f3a9f205b8f46ac054a82c7abd90e28564317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 133/192] fix: with noShell every extra blank between the words
 gave the program an empty argument

---
 src/jsiCmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index b7f3089..3ff2bd9 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1617,6 +1617,10 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             char **argv;
             Jsi_DString pStr = {};
             Jsi_SplitStr(cp, &argc, &argv, NULL, &pStr);
+            int wi, wn = 0;
+            for (wi=0; wi<argc; wi++)
+                if (argv[wi][0]) argv[wn++] = argv[wi];
+            argv[wn] = NULL;
             fp = jsi_popen(argv, type, &cpid);
             Jsi_DSFree(&pStr);
         }
-- 
2.43.0


From 6a8b32544d420c778d645fb97cb284ca7ae4f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:04 +0000
Subject: [PATCH 134/192] fix: the exit code of a command that does not read
 its input to the end was lost (-1)

---
 src/jsiCmds.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 3ff2bd9..d6fe54b 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1631,6 +1631,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             void (*osig)(int) = signal(SIGPIPE, SIG_IGN);
 #endif
             if (edata.inputStr) {
+                setvbuf(fp, NULL, _IONBF, 0); /* else pclose fails when it can not write the rest. */
                 edata.retCode = 1;
                 edata.retval = 0;
                 cp2 = Jsi_ValueString(interp, edata.inputStr, &sLen2);
-- 
2.43.0


From a9764845755dec1e9286a33907189edfaf4857cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:23 +0000
Subject: [PATCH 135/192] fix: a null for a group of options stored an
 uninitialised boolean in its members

---
 src/jsiOptions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 1a2f903..5217fb1 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -233,7 +233,7 @@ Jsi_RC
 jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /*UNUSED*/, void* rec, Jsi_Value *argValue, Jsi_Wide flags, bool isSafe)
 {
     Jsi_Wide wcount = 0;
-    bool bn;
+    bool bn = 0;
     Jsi_Number nv;
     bool isIncr = (flags & JSI_OPTS_INCR);
     const char *expType = NULL;
-- 
2.43.0


From dbd2fcc864ffc70eb55f559801136ee059edd521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:23 +0000
Subject: [PATCH 136/192] fix: a set of flags given as an object changed only
 the first eight of them

---
 src/jsiOptions.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 5217fb1..38a8c15 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1629,10 +1629,8 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
     } else {
 #ifndef JSI_LITE_ONLY
         // Supports object for update, or array for replace (or update when first string is just a '=')
-        if (!inValue) {
-            *s = 0;
-            return JSI_OK;
-        }
+        if (!inValue)
+            goto store;
         if (Jsi_ValueIsObjType(interp, inValue, JSI_OT_OBJECT) && !Jsi_ValueIsArray(interp, inValue)) {
             Jsi_TreeEntry *tPtr;
             Jsi_TreeSearch search;
@@ -1661,8 +1659,7 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
             }
             if (tp)
                 Jsi_TreeSearchDone(&search);
-            *s = m;
-            return JSI_OK;
+            goto store;
         }
         
         if (!Jsi_ValueIsArray(interp, inValue)) 
@@ -1688,9 +1685,9 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
             else
                 m |= (1<<n);
         }
-        *s = m;
 #endif
     }
+store:
     switch (spec->size) {
         case 1: *(uint8_t*)s = (uint8_t)m; break;
         case 2: *(uint16_t*)s = (uint16_t)m; break;
-- 
2.43.0


From 751cf44cbb9f3e59bfdd5c9b1d0588de412569a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:24 +0000
Subject: [PATCH 137/192] fix: an unknown flag in the text form of a set of
 flags shifted by an uninitialised count

---
 src/jsiOptions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 38a8c15..28c5455 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1613,8 +1613,10 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
                         rc = Jsi_LogError("Can not use '!' in a string starting with '='");
                     isnot = 1; cp++;
                 }
-                if (JSI_OK != Jsi_GetIndex(interp, cp, list, "enum", fflags, &n))
+                if (JSI_OK != Jsi_GetIndex(interp, cp, list, "enum", fflags, &n)) {
                     rc = JSI_ERROR;
+                    continue;
+                }
                 if (n >= (int)(spec->size*8)) 
                     rc = Jsi_LogError("list larger than field size: %s", spec->name);
                 if (isnot)
-- 
2.43.0


From c9fe03f6ce5b7136ce8548b7270bc153e512f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:07 +0000
Subject: [PATCH 138/192] fix: reading an option kept in a dynamic string
 emptied it

---
 src/jsiOptions.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 28c5455..1597cb0 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -734,9 +734,12 @@ jsi_GetOption(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, void* record, const c
         Jsi_ValueMakeNumber(interp, valuePtr, *(ushort *)ptr);
         break;
         
-    case JSI_OPTION_DSTRING:
-        Jsi_ValueFromDS(interp, (Jsi_DString*)ptr, valuePtr);
+    case JSI_OPTION_DSTRING: {
+        Jsi_DString dStr = {};
+        Jsi_DSAppendLen(&dStr, Jsi_DSValue((Jsi_DString*)ptr), Jsi_DSLength((Jsi_DString*)ptr));
+        Jsi_ValueFromDS(interp, &dStr, valuePtr);
         break;
+    }
     
     case JSI_OPTION_TIME_W: {
         Jsi_DString dStr = {};
-- 
2.43.0


From 2466cf6f594fc39b2311c16bc167ca0dbf3f0e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:07 +0000
Subject: [PATCH 139/192] fix: each conf of a sub-interpreter set its log and
 assertMode again when asserts differed from the parent

---
 src/jsiInterp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 231699e..f0e6525 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2922,7 +2922,7 @@ static Jsi_RC InterpConfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         rc = Jsi_OptionsConf(interp, InterpOptions, interp, opts, ret, 0);
     } else {
         sinterp = udf->subinterp;
-        oasserts = interp->asserts;
+        oasserts = sinterp->asserts;
         Jsi_Value *popts = opts;
         if (opts && opts->vt != JSI_VT_NULL && !Jsi_ValueString(interp, opts, NULL) && opts->vt == JSI_VT_OBJECT) {
             popts = Jsi_ValueNew1(sinterp);
-- 
2.43.0


From ea830b50b9188215b6d6ff15bea6266c465395d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:34 +0000
Subject: [PATCH 140/192] fix: assertMode and the log flags given to a new
 interpreter were overwritten by the asserts option nobody gave

---
 src/jsiInterp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index f0e6525..4ae4409 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1477,7 +1477,8 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
     interp->framePtr->ingsc = interp->gsc = jsi_ScopeChainNew(interp, 0);
 
     interp->ps = jsi_PstateNew(interp); /* Default parser. */
-    jsi_interpAssertsUpdate(interp);
+    if (interp->asserts)
+        jsi_interpAssertsUpdate(interp);
     jsi_UnitTestSetup(interp);
     if (interp->args && argc) {
         Jsi_LogBug("args may not be specified both as options and parameter");
-- 
2.43.0


From 0f0ef3493858d96a0f6cc73a70add32ad7446281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:02 +0000
Subject: [PATCH 141/192] fix: a newline right after an operator and up to two
 more characters was dropped, so that words of two lines were joined ("{do" +
 "puts(1)"), operators formed across lines and an empty // comment took the
 next line with it

---
 src/jsiInt.h    |  1 +
 src/jsiLexer.c  | 16 ++++++++++++++--
 src/jsiPstate.c |  1 +
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 7b748fd..150255a 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -813,6 +813,7 @@ typedef struct jsi_Lexer {
     int cur_line;           /* current line no. */
     int cur_char;           /* current column no. */
     int nlpend;             /* newlines already read, beyond the characters in unch */
+    int nlpos;              /* what follows a newline read ahead by jsi_do_sign: still to be seen as white space */
     int inStr;
     jsi_Pstate *pstate;
 } jsi_Lexer;
diff --git a/src/jsiLexer.c b/src/jsiLexer.c
index f54f2fb..d6af80f 100644
--- a/src/jsiLexer.c
+++ b/src/jsiLexer.c
@@ -16,6 +16,10 @@ static int lexer_getchar(jsi_Lexer *lex)
         if (lex->ungot) {
             c = lex->unch[--lex->ungot];
         } else {
+            if (lex->nlpos && lex->nlpos == lex->cur) {
+                lex->nlpos = 0;
+                return '\n';
+            }
             c = lex->d.str[lex->cur];
             if (c != 0) lex->cur++;
             lex->nlpend = 0;
@@ -44,6 +48,10 @@ static void lexer_ungetc(int c, jsi_Lexer *lex)
     if (!lex || !lex->pstate) { fprintf(stderr, "No lexer init\n"); return; }
     Jsi_Interp *interp = lex->pstate->interp;
     if (!c) return;
+    if (c == '\n' && lex->nlpend && !lex->ungot && lex->ltype == LT_STRING) {
+        lex->nlpos = lex->cur;
+        return;
+    }
     if (c == '\n') {
         lex->cur_line--;
     }
@@ -360,18 +368,22 @@ static int jsi_do_sign(jsi_Lexer *lex)
         { "=>", 2, ARROW }
     };
 
-    int bufi;
+    int bufi, nlpos = lex->nlpos, max = 4;
     char buf[4];
     uint i;
+    lex->nlpos = 0;
     for (bufi = 0; bufi < 4; ++bufi) {
+        if (nlpos && !lex->ungot && lex->cur == nlpos) max = bufi; // No operator spans lines.
         int c = lexer_getchar(lex);
+        if (c == '\n') nlpos = lex->cur;
         if (c == 0 || c == '\n') break;
         buf[bufi] = c;
     }
+    lex->nlpos = nlpos;
     if (!bufi) return 0;
     
     for (i = 0; i < sizeof(signs)/sizeof(struct st_sn); ++i) {
-        if (bufi < signs[i].len) continue;
+        if (bufi < signs[i].len || max < signs[i].len) continue;
         if (strncmp(buf, signs[i].name, signs[i].len) == 0) {
             int j;
             for (j = bufi - 1; j >= signs[i].len; --j)
diff --git a/src/jsiPstate.c b/src/jsiPstate.c
index dc799bb..89f1b41 100644
--- a/src/jsiPstate.c
+++ b/src/jsiPstate.c
@@ -208,6 +208,7 @@ void jsi_PstateClear(jsi_Pstate *ps)
     l->last_token = 0;
     l->cur_line = 1;
     l->nlpend = 0;
+    l->nlpos = 0;
     l->cur_char = 0;
     l->cur = 0;
     ps->err_count = 0;
-- 
2.43.0


From 4fb6237dfe11fa370037440b744e70331a5ad760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:09 +0000
Subject: [PATCH 142/192] fix: the text of a function began with whatever
 preceded it on its line (text of two functions on one line was wrong), and
 that of an arrow function ended after it

---
 src/jsiFunc.c  | 24 +++++++++++-------------
 src/jsiLexer.c |  2 +-
 src/parser.y   |  4 +++-
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/jsiFunc.c b/src/jsiFunc.c
index fc284b2..991f859 100644
--- a/src/jsiFunc.c
+++ b/src/jsiFunc.c
@@ -145,27 +145,25 @@ const char *jsi_typeName(Jsi_Interp *interp, int typ, Jsi_DString *dStr) {
 const char* jsi_FuncGetCode(Jsi_Interp *interp, Jsi_Func *func, int *lenPtr) {
     if (interp->subOpts.noFuncString || !func->bodyStr)
         return NULL;
-    const char *cp, *cp2;
+    const char *cp;
     if (func->startPos == -1) {
-        cp = func->bodyStr;
-        int cplin = func->bodyline.last_line-1;
-        while (*cp && cplin>0) {
-            if (*cp=='\n' && --cplin<=0)
-                break;
-            cp++;
+        // The first token, or the last one before the "(" or arrow, is at bodyline.last_column.
+        cp = func->bodyStr + func->bodyline.last_column;
+        if (func->isArrow) {
+            if (*cp == ')')
+                while (cp > func->bodyStr && *cp != '(') cp--;
+        } else if (Jsi_Strncmp(cp, "function", 8) || isalnum(cp[8]) || cp[8] == '_' || cp[8] == '$') {
+            const char *fp = cp;
+            while (fp > func->bodyStr && isspace(fp[-1])) fp--;
+            if (fp - func->bodyStr >= 8 && !Jsi_Strncmp(fp-8, "function", 8))
+                cp = fp-8;
         }
-        while (*cp && isspace(*cp))
-            cp++;
         func->startPos = (*cp?(cp - func->bodyStr):-2);
     }
     if (func->startPos >= 0) {
         int len = func->endPos - func->startPos;
         cp = func->bodyStr + func->startPos;
         while (len>0 && (isspace(cp[len-1]) || cp[len-1]==';')) len--;
-        if (*cp != 'f' && Jsi_Strncmp(cp, "function", 8) && (cp2=Jsi_Strstr(cp, "function"))) {
-            len -= (cp2-cp);
-            cp = cp2;
-        }
         *lenPtr = len;
         return cp;
     }
diff --git a/src/jsiLexer.c b/src/jsiLexer.c
index d6af80f..8af1267 100644
--- a/src/jsiLexer.c
+++ b/src/jsiLexer.c
@@ -402,10 +402,10 @@ static int jsi_do_sign(jsi_Lexer *lex)
 #define LOCATION_START(loc, lex) do {       \
     (loc)->first_line = (lex)->cur_line - (lex)->nlpend;    \
     (loc)->first_column = (lex)->cur_char;  \
+    (loc)->last_column = (lex)->cur - (lex)->ungot - (lex)->nlpend - 1; /* Offset of the token in the text. */ \
     } while(0)
 #define LOCATION_END(loc, lex) do {         \
     (loc)->last_line = (lex)->cur_line - (lex)->nlpend;     \
-    (loc)->last_column = (lex)->cur_char;   \
     } while(0)
 
 static void jsi_eat_comment(jsi_Lexer *lex)
diff --git a/src/parser.y b/src/parser.y
index 6afaba5..470d095 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -634,7 +634,9 @@ expr:
     | '(' expr ')'          { $$ = $2; }
     | arrowargs ARROW expr %prec MIN_PRI {
         jsi_PstatePush(pstate);
-        $$ = code_push_func(pstate,  &@1, jsi_FuncMake(pstate, $1, codes_join($3, code_ret(pstate, &@3, 1)), &@1, NULL, 1)); 
+        Jsi_Func *fn = jsi_FuncMake(pstate, $1, codes_join($3, code_ret(pstate, &@3, 1)), &@1, NULL, 1);
+        if (yychar > 0) fn->endPos = yylloc.last_column; // The token after the expression was already read.
+        $$ = code_push_func(pstate,  &@1, fn); 
         jsi_PstatePop(pstate);
     }
     | arrowargs ARROW func_statement_block {
-- 
2.43.0


From 901210b2fb0c9065045fc970e3daca53ef6220c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:09 +0000
Subject: [PATCH 143/192] fix: an arrow function with an expression body took
 the following arguments or array elements along: f(x=>x+1, 5) passed one
 argument

---
 src/parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.y b/src/parser.y
index 470d095..81e151e 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -632,7 +632,7 @@ expr:
         else $$ = codes_join($2, code_dec(pstate, &@2, 0));
     }
     | '(' expr ')'          { $$ = $2; }
-    | arrowargs ARROW expr %prec MIN_PRI {
+    | arrowargs ARROW expr %prec '=' {
         jsi_PstatePush(pstate);
         Jsi_Func *fn = jsi_FuncMake(pstate, $1, codes_join($3, code_ret(pstate, &@3, 1)), &@1, NULL, 1);
         if (yychar > 0) fn->endPos = yylloc.last_column; // The token after the expression was already read.
-- 
2.43.0


From 2c9b5587c0d12662dd5cb243000983e660e520af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:36 +0000
Subject: [PATCH 144/192] fix: push and Array() past the maxArrayList limit
 dropped elements without an error

---
 src/jsiArray.c | 3 ++-
 src/jsiValue.c | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 21fbef9..45f7738 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -32,7 +32,8 @@ static Jsi_RC jsi_ArrayPushCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     for (i = 0; i < argc; ++i) {
         Jsi_Value *ov = Jsi_ValueArrayIndex(interp, args, i);
         if (!ov) { Jsi_LogBug("Arguments Error"); ov = Jsi_ValueNew(interp); }
-        Jsi_ValueInsertArray(interp, _this, curlen + i, ov, 0);
+        if (Jsi_ValueInsertArray(interp, _this, curlen + i, ov, 0) != JSI_OK)
+            return JSI_ERROR;
     }
     
     Jsi_ValueMakeNumber(interp, ret, jsi_SizeOfArray(interp, obj));
diff --git a/src/jsiValue.c b/src/jsiValue.c
index 247b1b1..ba1ef23 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1305,10 +1305,9 @@ Jsi_RC Jsi_ValueInsertArray(Jsi_Interp *interp, Jsi_Value *target, int key, Jsi_
     
     if (obj->isarrlist) {
         if (key >= 0 && (uint)key < interp->maxArrayList) {
-            Jsi_ValueArraySet(interp, target, val, key);
-            return JSI_OK;
+            return Jsi_ValueArraySet(interp, target, val, key);
         }
-        return JSI_ERROR;
+        return Jsi_LogError("array size too big: %d >= %u", key, interp->maxArrayList);
     }
     char unibuf[JSI_MAX_NUMBER_STRING];
     Jsi_NumberItoA10(key, unibuf, sizeof(unibuf));
-- 
2.43.0


From eb2890f7d49b42570f26c3cc9cd82f57fcc15306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:57 +0000
Subject: [PATCH 145/192] fix: JSON.parse of an array past the maxArrayList
 limit returned a truncated array

---
 src/jsiJSON.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 15acc0c..35d7857 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -171,6 +171,10 @@ jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, ui
     if (js==NULL || !js[0])
         return NULL;
     Jsi_Value *v = Jsi_ValueNewArray(interp, 0, 0);
+    if (!v) {
+        p->errStr = "array too big";
+        return Jsi_ValueNew(interp);
+    }
     Jsi_Obj *nobj = v->d.obj;
     uint i, n;
     Jsi_JsonTok *tok;
@@ -180,6 +184,7 @@ jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, ui
     for (i=pos+1, n=0; i<p->toknext && n<tok->size; i++, n++) {
         if (n >= nobj->arrMaxSize) {
             if (Jsi_ObjArraySizer(interp, nobj, n+1)<=0) {
+                p->errStr = "array too big";
                 break;
             }
         }
@@ -277,6 +282,8 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
         Jsi_ValueReplace(interp, ret, v);
         Jsi_DecrRefCount(interp, v);
     }
+    if (p->errStr)
+        result = JSI_ERROR;
 done:
     Jsi_JsonFree(&pp);
     return result;
-- 
2.43.0


From 048e7891721a590fe22768d81de221a92d5353de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:17 +0000
Subject: [PATCH 146/192] fix: Object.values of an object with more properties
 than maxArrayList returned a truncated array

---
 src/jsiObj.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiObj.c b/src/jsiObj.c
index 637c3be..9077bae 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -154,8 +154,7 @@ Jsi_RC Jsi_ObjGetValues(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *outVal, Jsi
         }
         return JSI_OK;
     }
-    Jsi_TreeWalk(obj->tree, ObjListifyValuesCallback, Jsi_ValueGetObj(interp, outVal), 0);
-    return JSI_OK;
+    return Jsi_TreeWalk(obj->tree, ObjListifyValuesCallback, Jsi_ValueGetObj(interp, outVal), 0);
 }
 
 void Jsi_IterObjFree(Jsi_IterObj *iobj)
-- 
2.43.0


From 0bafa442ed734ad46093056a9baf8d70c07e2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:10 +0000
Subject: [PATCH 147/192] fix: a testable last line without a newline was
 ignored, so that the expectation stored by -update did not hold

---
 src/jsiEval.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 7061513..ce9d999 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2305,12 +2305,13 @@ static Jsi_RC jsiJsPreprocessLine(Jsi_Interp* interp, char *buf, size_t bsiz, ui
                 return JSI_OK;
             }
         }
-        if (buf[ilen-1]=='\n' && buf[ilen-2]==';' && (2*ilen+12)<bsiz) {
+        uint nl = (buf[ilen-1]=='\n');  // The last line may lack a newline.
+        if (buf[ilen-1-nl]==';' && (2*ilen+12)<bsiz) {
             if (Jsi_Strchr(buf, '`')) {
                 return Jsi_LogError("back-tick is illegal in testMode on line %d: %s", lineNo, buf);
             }
             char ubuf[bsiz], *ucp = ubuf;
-            buf[ilen-=2] = 0;
+            buf[ilen-=1+nl] = 0;
             Jsi_Strcpy(ubuf, buf+1);
             while (*ucp && isspace(*ucp)) ucp++;
             if (ilen>2 && ucp[0]=='\'' && ubuf[ilen-2]=='\'')
-- 
2.43.0


From cce161d7c001895e5578dac64b3a784109c0499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:35 +0000
Subject: [PATCH 148/192] fix: the -exec mode passed options that jsish does
 not have

---
 lib/Testing.jsi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index e34a4c8..606bdf6 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -80,7 +80,7 @@ function Testing(fileargs:array, conf:object=void):number {
 
         if (self.args === '' && asm)
             self.args = asm[1];
-        var tcmd = Info.executable() + ' --L assert';
+        var tcmd = Info.executable() + ' --I log:assert';
         var ut = 1;
         var sint = null;
         var siargs = {log:{assert:true}};
@@ -92,7 +92,7 @@ function Testing(fileargs:array, conf:object=void):number {
         if (self.echo)
             ut += 2;
         if (ut) {
-            tcmd += ' -ItestMode ' + ut;
+            tcmd += ' --I testMode:' + ut;
             siargs.testMode = ut;
         }
         tcmd += ' '+fn+' '+self.args;
-- 
2.43.0


From ce703e451ab97bf478bb641fe30d4718abbbef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:55 +0000
Subject: [PATCH 149/192] fix: value() and uplevel() always failed on an idle
 sub-interpreter, and uplevel() required its optional level

---
 src/jsiInterp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 4ae4409..2f99e9d 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2117,7 +2117,7 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         lev = (int)nlev;
         if (lev <= 0)
             lev = f->level+lev;
-        if (lev <= 0 || lev > f->level)
+        if ((lev <= 0 && lev != f->level) || lev > f->level)
             return Jsi_LogError("level %d not between 1 and %d", (int)nlev, f->level);
     }
 
@@ -2279,7 +2279,7 @@ static Jsi_RC InterpValueCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     int lev = (int)nlev;
     if (lev <= 0)
         lev = f->level+lev;
-    if (lev <= 0 || lev > f->level)
+    if ((lev <= 0 && lev != f->level) || lev > f->level)
         return Jsi_LogError("level %d not between 1 and %d", (int)nlev, f->level);
     while (f->level != lev  && f->parent)
         f = f->parent;
@@ -2759,7 +2759,7 @@ static Jsi_CmdSpec interpCmds[] = {
     { "eval",   InterpEvalCmd,    1,  2, "js:string, async:boolean=false", .help="Interpret script within sub-interp", .retType=(uint)JSI_TT_ANY, .flags=0, .info=FN_interpeval },
     { "info",   InterpInfoCmd,    0,  0, "", .help="Returns internal statistics about interp", .retType=(uint)JSI_TT_OBJECT },
     { "source", InterpSourceCmd,  1,  2, "file:string, async:boolean=false", .help="Interpret file within sub-interp", .retType=(uint)JSI_TT_ANY, .flags=0, .info=FN_interpeval },
-    { "uplevel",InterpUplevelCmd, 2,  2, "js:string, level:number=0", .help="Interpret code at the given stack level", .retType=(uint)JSI_TT_ANY, .flags=0, .info=FN_interpuplevel },
+    { "uplevel",InterpUplevelCmd, 1,  2, "js:string, level:number=0", .help="Interpret code at the given stack level", .retType=(uint)JSI_TT_ANY, .flags=0, .info=FN_interpuplevel },
     { "value",  InterpValueCmd,   1,  2, "varName:string, level:number=0", .help="Lookup value of variable at stack level", .retType=(uint)JSI_TT_ANY },
     { NULL,     0,0,0,0, .help="Commands for accessing interps" }
 };
-- 
2.43.0


From f6eec206f32e027d16ae5c2d1fc85ca48902c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:21 +0000
Subject: [PATCH 150/192] fix: --T swallowed the option after it

---
 src/jsiInterp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 2f99e9d..4fe9099 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1275,6 +1275,7 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
                 case 'T': {
                     interp->testMode=1;
                     interp->iskips+=1;
+                    iocnt--;
                     continue;
                 }
                 case 'I':  {
-- 
2.43.0


From 3b7cf97d3107787fe15f65becd42ec05a90ff191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:10 +0000
Subject: [PATCH 151/192] fix: a string handed to another interpreter was kept
 in the key table of its own interpreter: cut at a NUL and used after free
 once that one was deleted

---
 src/jsiInterp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 4fe9099..7f63a97 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -236,12 +236,12 @@ Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value *val,
         case JSI_VT_BOOL: Jsi_ValueMakeBool(tointerp, ret, val->d.val); return rc;
         case JSI_VT_NUMBER: Jsi_ValueMakeNumber(tointerp, ret, val->d.num); return rc;
         case JSI_VT_STRING:
-            iskey = 1;//val->f.bits.isstrkey;
+            iskey = 0;
             cp = val->d.s.str;
             len = val->d.s.len;
 makestr:
             if (iskey) {
-                Jsi_ValueMakeStringKey(interp, ret, cp);
+                Jsi_ValueMakeStringKey(tointerp, ret, cp);
                 return rc;
             }
             jsi_ValueMakeBlobDup(tointerp, ret, (uchar*)cp, len);
-- 
2.43.0


From 22d5c51f2e745d9fc7a1931741edf80b2e23ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:22 +0000
Subject: [PATCH 152/192] fix: maxUserObjs allowed one object more than it says

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index ce9d999..7781d0c 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1279,7 +1279,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 break;
             }
             case OP_NEWFCALL:
-                if (interp->maxUserObjs && interp->userObjCnt > interp->maxUserObjs) {
+                if (interp->maxUserObjs && interp->userObjCnt >= interp->maxUserObjs) {
                     rc = Jsi_LogError("Max 'new' count exceeded");
                     break;
                 }
-- 
2.43.0


From a0e893bb040f9716bf9666cf434710242cc9bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:49 +0000
Subject: [PATCH 153/192] fix: match and exec dropped matches past the
 maxArrayList limit without an error

---
 src/jsiRegexp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index 13db680..975e8f9 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -267,7 +267,10 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
             Jsi_Value *val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
             if (ofs)
                 *ofs = pos[i].rm_eo;
-            Jsi_ValueInsertArray(interp, ret, num_matches, val, 0);
+            if (Jsi_ValueInsertArray(interp, ret, num_matches, val, 0) != JSI_OK) {
+                Jsi_DecrRefCount(interp, val);
+                return JSI_ERROR;
+            }
             num_matches++;
             if ( match && isglob)
                 break;
-- 
2.43.0


From 474f42ed1c45b7704fae1a7a5d17a6c4cf4cc5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 154/192] fix: an array literal or argument list past the
 maxArrayList limit became empty without an error

---
 src/jsiEval.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 7781d0c..8f7ef85 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -838,7 +838,9 @@ static Jsi_RC jsiEvalFunction(jsi_Pstate *ps, jsi_OpCode *ip, int discard) {
         _this = Jsi_ValueDup(interp, _this);
         jsiClearThis(interp, tocall_index);
     }
-    Jsi_RC rc = jsiFunctionSubCall(interp, args, _this, &spretPtr, tocall, discard);
+    Jsi_RC rc = JSI_ERROR; // Too many arguments.
+    if (args->d.obj->isarrlist)
+        rc = jsiFunctionSubCall(interp, args, _this, &spretPtr, tocall, discard);
     
     jsiPop(interp, stackargc);
     
@@ -1958,6 +1960,10 @@ undef_eval:
                 Jsi_Obj *obj = Jsi_ObjNewArray(interp, _jsi_STACK+(fp->Sp-itemcount), itemcount, 1);
                 jsiPop(interp, itemcount - 1);
                 jsiClearStack(interp,1);
+                if (!obj) {
+                    rc = JSI_ERROR;
+                    break;
+                }
                 Jsi_ValueMakeObject(interp, &_jsi_TOP, obj);
                 break;
             }
-- 
2.43.0


From 77f613bd83d6c528e61644c708928bf46019dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:33 +0000
Subject: [PATCH 155/192] fix: a query whose result exceeds maxArrayList
 returned only the first rows

---
 src/jsiSqlite.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 56b8a96..b8c8bc8 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2607,6 +2607,14 @@ static void dbOutputHexBlob(Jsi_DString *dStr, const void *pBlob, int nBlob){
   Jsi_DSAppend(dStr, "'", NULL);
 }
 
+// Append to the array of results; frees the value if the array is at its limit.
+static Jsi_RC dbArrayAdd(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *val) {
+    Jsi_IncrRefCount(interp, val);
+    Jsi_RC rc = Jsi_ObjArrayAdd(interp, obj, val);
+    Jsi_DecrRefCount(interp, val);
+    return rc;
+}
+
 #define FN_sqlexec JSI_INFO("\
 Return values in formatted as JSON, HTML, etc. , optionally calling function with a result object")
 static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
@@ -3080,7 +3088,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 vcur = dbEvalSetColumnValue(&sEval, i, NULL);
                 Jsi_ObjInsert(interp, ocur, apColName[i], vcur, 0);
             }
-            Jsi_ObjArrayAdd(interp, oall, vrow);
+            if ((rc = dbArrayAdd(interp, oall, vrow)) != JSI_OK) break;
             cnt++;
             if (opts.limit && cnt>=opts.limit) break;
         }
@@ -3114,7 +3122,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 vcur = dbEvalSetColumnValue(&sEval, i, NULL);
                 Jsi_ObjArrayAdd(interp, ocur, vcur);
             }
-            Jsi_ObjArrayAdd(interp, oall, vrow);
+            if ((rc = dbArrayAdd(interp, oall, vrow)) != JSI_OK) break;
             cnt++;
             if (opts.limit && cnt>=opts.limit) break;
         }
@@ -3143,8 +3151,9 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             }
             for(i=0; i<nCol; i++) {
                 vcur = dbEvalSetColumnValue(&sEval, i, NULL);
-                Jsi_ObjArrayAdd(interp, oall, vcur);
+                if ((rc = dbArrayAdd(interp, oall, vcur)) != JSI_OK) break;
             }
+            if (rc != JSI_OK) break;
             cnt++;
             if (opts.limit && cnt>=opts.limit) break;
         }
-- 
2.43.0


From bca7a45abcfcef980c19d52246ef0db33fb01d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 156/192] fix: concat grew the spare room of its result with
 each call until the array limit error on a short array

---
 src/jsiArray.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 45f7738..edc3042 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -301,8 +301,7 @@ static Jsi_RC jsi_ArrayConcatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     Jsi_ObjListifyArray(interp, obj);
    
     nobj = Jsi_ObjNewType(interp, JSI_OT_ARRAY);
-    nsiz = obj->arrMaxSize;
-    if (nsiz<=0) nsiz = 100;
+    nsiz = curlen;  // Not arrMaxSize, which would grow with every concat.
     if (Jsi_ObjArraySizer(interp, nobj, nsiz+1) <= 0)
         return Jsi_LogError("index too large: %d", nsiz+1);;
 
-- 
2.43.0


From ef3350c94b0c5ed1421a7ce433d4bd9315679879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:39 +0000
Subject: [PATCH 157/192] fix: assigning to an array index past the limit made
 a stray property, or for 2^32 changed element 0

---
 src/jsiEval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 8f7ef85..12c0d09 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1101,6 +1101,8 @@ static Jsi_RC jsi_ValueObjKeyAssign(Jsi_Interp *interp, Jsi_Value *target, Jsi_V
             target->vt == JSI_VT_OBJECT && target->d.obj->arr) {
             return jsi_ObjArraySetDup(interp, target->d.obj, value, arrayindex);
         }
+        if (target->vt == JSI_VT_OBJECT && target->d.obj->isarrlist && keyval->d.num >= interp->maxArrayList)
+            return Jsi_LogError("array index too big: %.0f >= %u", keyval->d.num, interp->maxArrayList);
     }
     Jsi_String *jstr = jsi_ValueString(keyval);
     if (jstr)
-- 
2.43.0


From a620747c57badec8645f7cef17c2076f40d0ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:31 +0000
Subject: [PATCH 158/192] fix: exec and match dropped empty, unmatched or
 repeated groups, stopped at an empty match, saw each rest of the text as its
 beginning; exec shared and misplaced lastIndex

---
 src/jsiInt.h    |  3 +-
 src/jsiRegexp.c | 92 ++++++++++++++++++++++++++++++-------------------
 2 files changed, 59 insertions(+), 36 deletions(-)

diff --git a/src/jsiInt.h b/src/jsiInt.h
index 150255a..3653313 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1350,7 +1350,6 @@ struct Jsi_Regex_ {
     int eflags;
     int flags;
     char *pattern;
-    int lastIndex;
 };
 
 
@@ -1545,6 +1544,8 @@ extern Jsi_RC jsi_CDataDataSetCmdSub(Jsi_Interp *interp, Jsi_Value *args, Jsi_Va
 extern Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this, Jsi_Value **ret, Jsi_Func *funcPtr);
 extern Jsi_Number jsi_VersionNormalize(Jsi_Number ver, char *obuf, size_t osiz);
 extern const char* jsi_FuncGetCode(Jsi_Interp *interp, Jsi_Func *func, int *lenPtr);
+extern int jsi_RegExec(regex_t *reg, const char *str, int slen, int start, regmatch_t *pos, int npos);
+extern int jsi_RegCharLen(const char *str, int slen, int ofs);
 extern Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str, int slen, Jsi_Value *ret, int *ofs, bool match);
 extern Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value *val, Jsi_Value **ret); //TODO: EXPORT
 extern void jsi_SysPutsCmdPrefix(Jsi_Interp *interp, jsi_LogOptions *popts,Jsi_DString *dStr, int* quote, const char **fnPtr);
diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index 975e8f9..d900100 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -213,10 +213,37 @@ Jsi_RC Jsi_RegExpMatch(Jsi_Interp *interp, Jsi_Value *pattern, const char *v, in
 
 
 
+// Match from byte offset start of str on: what precedes it is still seen by the anchors.  Positions are those in str.
+int jsi_RegExec(regex_t *reg, const char *str, int slen, int start, regmatch_t *pos, int npos)
+{
+#ifdef REG_STARTEND
+    pos[0].rm_so = start;
+    pos[0].rm_eo = slen;
+    return regexec(reg, str, npos, pos, REG_STARTEND);
+#else
+    int i, r = regexec(reg, str+start, npos, pos, start?REG_NOTBOL:0);
+    for (i = 0; r==0 && i<npos; i++)
+        if (pos[i].rm_so>=0) {
+            pos[i].rm_so += start;
+            pos[i].rm_eo += start;
+        }
+    return r;
+#endif
+}
+
+// Length in bytes of the character at offset ofs.
+int jsi_RegCharLen(const char *str, int slen, int ofs)
+{
+    int len = 1;
+    while (ofs+len<slen && (str[ofs+len]&0xC0)==0x80) len++;
+    return len;
+}
+
+// Get the matches and subexpressions of the first match at or after *ofs (if given), which is set to the end of the match.
+// With match and the flag g, get all the matches instead.
 Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str, int n, Jsi_Value *ret, int *ofs, bool match)
 {
     Jsi_Regex *re;
-    int regexec_flags = 0;
     Jsi_Value *seq = pattern;
 
     if (seq == NULL || seq->vt != JSI_VT_OBJECT || seq->d.obj->ot != JSI_OT_REGEXP) {
@@ -227,12 +254,14 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
     regex_t *reg = &re->reg;
     
     regmatch_t pos[MAX_SUBREGEX] = {};
-    int num_matches = 0, r;
-    int isglob = (re->eflags&JSI_REG_GLOB);
+    int num_matches = 0, r, start = (ofs?*ofs:0);
+    int isglob = (match && (re->eflags&JSI_REG_GLOB));
     Jsi_Obj *obj;
+    if (n < 0)
+        n = Jsi_Strlen(str);
     
     do {
-        r = regexec(reg, str, MAX_SUBREGEX, pos, regexec_flags);
+        r = jsi_RegExec(reg, str, n, start, pos, MAX_SUBREGEX);
 
         if (r >= REG_BADPAT) {
             char buf[JSI_BUFSIZ];
@@ -256,35 +285,26 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
         }
     
         int i;
-        for (i = 0; i < MAX_SUBREGEX; ++i) {
-            if (pos[i].rm_so <= 0 && pos[i].rm_eo <= 0)
-                break;
-            if (i && pos[i].rm_so == pos[i-1].rm_so && pos[i].rm_eo == pos[i-1].rm_eo)
-                continue;
-    
-            int olen = -1;
-            char *ostr = jsi_SubstrDup(str, -1, pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so, &olen);
-            Jsi_Value *val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
-            if (ofs)
-                *ofs = pos[i].rm_eo;
+        for (i = 0; i < MAX_SUBREGEX && i <= (int)reg->re_nsub; ++i) {
+            Jsi_Value *val;
+            if (pos[i].rm_so < 0)
+                val = Jsi_ValueNewNull(interp);
+            else
+                val = Jsi_ValueNewBlob(interp, (uchar*)str + pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so);
             if (Jsi_ValueInsertArray(interp, ret, num_matches, val, 0) != JSI_OK) {
                 Jsi_DecrRefCount(interp, val);
                 return JSI_ERROR;
             }
             num_matches++;
-            if ( match && isglob)
+            if (isglob)
                 break;
         }
-        if (num_matches && match && !isglob)
-            return JSI_OK;
-        if (num_matches == 1 && (ofs || !isglob))
-            break;
-        
-        str += pos[0].rm_eo;
-        n -= pos[0].rm_eo;
-
-        regexec_flags |= REG_NOTBOL;
-    } while (n && pos[0].rm_eo>0);
+        if (ofs)
+            *ofs = pos[0].rm_eo;
+        start = pos[0].rm_eo;
+        if (pos[0].rm_so == pos[0].rm_eo)
+            start += jsi_RegCharLen(str, n, start);
+    } while (isglob && start <= n);
     
     return JSI_OK;
 }
@@ -305,7 +325,7 @@ static Jsi_RC RegexpExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     Jsi_Value *v;
     ChkRegexp(_this, funcPtr, v);
     /* TODO: add lastIndex support. */
-    int slen;
+    int slen, ofs = 0;
     char *str = Jsi_ValueString(interp,Jsi_ValueArrayIndex(interp, args, skip), &slen);
     if (!str) 
         return Jsi_LogError("expected string");
@@ -319,18 +339,20 @@ static Jsi_RC RegexpExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         l = Jsi_ValueObjLookup(interp, v, "lastIndex", 0);
         if (l && (Jsi_ValueGetNumber(interp, l, &lv) != JSI_OK || !Jsi_NumberIsNormal(lv))) 
             return Jsi_LogError("lastIndex not a number");
-        if (l)
-            re->lastIndex = (int)lv;
+        for (; lv>=1 && ofs<=slen; lv--)
+            ofs += jsi_RegCharLen(str, slen, ofs);
     }
-    int ofs = 0;
-    Jsi_RC rc = jsi_RegExpMatches(interp, v, re->lastIndex<slen?str+re->lastIndex:"", -1, *ret, isglob?&ofs:NULL, 0);
+    Jsi_RC rc = JSI_OK;
+    if (ofs > slen)
+        Jsi_ValueMakeNull(interp, ret);
+    else
+        rc = jsi_RegExpMatches(interp, v, str, slen, *ret, isglob?&ofs:NULL, 0);
     if (isglob) {
         if (rc != JSI_OK)
             return rc;
-        re->lastIndex += ofs;
-        if (Jsi_ValueIsNull(interp, *ret))
-            re->lastIndex = 0;
-        lv = (Jsi_Number)re->lastIndex;
+        lv = 0;
+        if (!Jsi_ValueIsNull(interp, *ret))
+            lv = (Jsi_Number)Jsi_NumUtfChars(str, ofs);
         if (!l)
             Jsi_ValueInsert(interp, v, "lastIndex", Jsi_ValueNewNumber(interp, lv), JSI_OM_DONTDEL);
         else if (l->vt == JSI_VT_NUMBER)
-- 
2.43.0


From 8c2c676ad5f8b980ce58edc0aafc8bbc20b52f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:22 +0000
Subject: [PATCH 159/192] fix: replace stopped at an empty match, matched
 anchors at the rest of the text, mistreated $ at the end of the replacement
 and the text after the match, and gave functions byte offsets

---
 src/jsiString.c | 63 +++++++++++++++----------------------------------
 1 file changed, 19 insertions(+), 44 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 7cc03f7..562a060 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -663,7 +663,6 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     int source_len, bLen;
     const char *replace_str = NULL;
     int replace_len;
-    int regexec_flags = 0;
     Jsi_Value *seq, *strVal;
     Jsi_DString dStr = {}, eStr = {};
     regex_t *regex;
@@ -671,7 +670,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     const char *p;
     int maxArgs = 1;
 
-    int offset = 0, n, j, isglob = 0, num_matches = 0;
+    int offset = 0, j, isglob = 0, num_matches = 0;
     /* Is a generic  String.replace if _this->d.obj is a function */
     ChkString(_this, funcPtr, source_str, &source_len, &bLen);
     source_len = bLen;
@@ -750,8 +749,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     }
 
     Jsi_DSAppendLen(&dStr, source_str, offset);
-    n = source_len - offset;
-    p = source_str + offset;
+    p = source_str;
     Jsi_RC rc = JSI_OK;
     do {
         if (num_matches > 10000000) {
@@ -759,7 +757,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             rc = JSI_ERROR;
             break;
         }
-        int match = regexec(regex, p, MAX_SUBREGEX, pmatch, regexec_flags);
+        int match = jsi_RegExec(regex, source_str, source_len, offset, pmatch, MAX_SUBREGEX);
 
         if (match >= REG_BADPAT) {
             char buf[JSI_MAX_NUMBER_STRING];
@@ -773,16 +771,16 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             break;
         }
         num_matches++;
-        Jsi_DSAppendLen(&dStr, p, pmatch[0].rm_so);
+        Jsi_DSAppendLen(&dStr, p + eoffset, pmatch[0].rm_so - eoffset);
 
-        if (replace_str &&  !Jsi_Strchr(replace_str, '$'))
-            Jsi_DSAppend(&dStr, replace_str, NULL);
+        if (replace_str && !memchr(replace_str, '$', replace_len))
+            Jsi_DSAppendLen(&dStr, replace_str, replace_len);
         else if (replace_str) {
             for (j = 0; j < replace_len; j++) {
                 int idx;
                 int c = replace_str[j];
      
-                if (c == '$' && j < replace_len) {
+                if (c == '$' && (j+1) < replace_len) {
                     c = replace_str[++j];
                     if ((c >= '0') && (c <= '9')) {
                         idx = c - '0';
@@ -793,7 +791,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                         continue;
                     }
                     else if (c == '\'') {
-                        Jsi_DSAppendLen(&dStr, p + pmatch[0].rm_eo, pmatch[0].rm_eo-Jsi_Strlen(p));
+                        Jsi_DSAppendLen(&dStr, p + pmatch[0].rm_eo, source_len - pmatch[0].rm_eo);
                         continue;
                     }
                     else if (c == '`') {
@@ -815,14 +813,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             }
     
         } else {
-            Jsi_DString sStr;
-            Jsi_DSInit(&sStr); 
-            if (pmatch[0].rm_so <= 0 && pmatch[0].rm_eo <= 0)
-                break;
-            int olen = -1;
-            char *ostr = jsi_SubstrDup(p, -1, pmatch[0].rm_so, pmatch[0].rm_eo - pmatch[0].rm_so, &olen);
-            Jsi_Value *inStr = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
-            Jsi_DSFree(&sStr);
+            Jsi_Value *inStr = Jsi_ValueNewBlob(interp, (uchar*)p + pmatch[0].rm_so, pmatch[0].rm_eo - pmatch[0].rm_so);
             Jsi_IncrRefCount(interp, inStr);
             if (maxArgs==1) {
                 Jsi_RC rc = Jsi_FunctionInvokeString(interp, repVal, inStr, &dStr, _this);
@@ -840,12 +831,10 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 for (i=1; i<=(int)re->reg.re_nsub && i<(MAX_SUBREGEX-3); i++) {
                     if (pmatch[i].rm_so<0)
                         items[i] = interp->NullValue;
-                    else {
-                        ostr = jsi_SubstrDup(p, -1, pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so, &olen);
-                        items[i] = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
-                    }
+                    else
+                        items[i] = Jsi_ValueNewBlob(interp, (uchar*)p + pmatch[i].rm_so, pmatch[i].rm_eo - pmatch[i].rm_so);
                 }
-                items[i++] = Jsi_ValueMakeNumber(interp, NULL, eoffset+pmatch[0].rm_so);
+                items[i++] = Jsi_ValueMakeNumber(interp, NULL, Jsi_NumUtfChars(p, pmatch[0].rm_so));
                 items[i++] = strVal;
                 vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, i, 0));
                 Jsi_IncrRefCount(interp, vpargs);
@@ -865,34 +854,20 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             }
             Jsi_DecrRefCount(interp, inStr);
         }
-        eoffset += pmatch[0].rm_eo;
-        p += pmatch[0].rm_eo;
-        n -= pmatch[0].rm_eo;
+        eoffset = offset = pmatch[0].rm_eo;
+        /* Step forwards over an empty match: its next character is copied with the text before the next match. */
+        if (pmatch[0].rm_so == pmatch[0].rm_eo)
+            offset += jsi_RegCharLen(p, source_len, offset);
         /* If -all is not specified, or there is no source left, we are done */
-        if (!isglob || n == 0 || pmatch[0].rm_eo == 0) {
-            break;
-        }
-        /* An anchored pattern without -line must be done */
-        if ((re->eflags & JSI_REG_NEWLINE) == 0 && re->pattern[0] == '^') {
+        if (!isglob)
             break;
-        }
-        
-        /* If the pattern is empty, need to step forwards */
-        if (re->pattern[0] == '\0' && n) {
-            /* Need to copy the char we are moving over */
-            Jsi_DSAppendLen(&dStr, p, 1);
-            p++;
-            n--;
-        }
-
-        regexec_flags |= REG_NOTBOL;
-    } while (n);
+    } while (offset <= source_len);
 
     /*
      * Copy the portion of the string after the last match to the
      * result variable.
      */
-    Jsi_DSAppend(&dStr, p, NULL);
+    Jsi_DSAppendLen(&dStr, p + eoffset, source_len - eoffset);
     Jsi_ValueFromDS(interp, &dStr, ret);
     return rc;
 
-- 
2.43.0


From 75dd2013cd549a7431550e2da01f3d759bc5dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:44 +0000
Subject: [PATCH 160/192] fix: an unterminated string or regular expression was
 taken as the end of the program: the code before it ran and the rest was
 dropped silently

---
 src/jsiLexer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiLexer.c b/src/jsiLexer.c
index 8af1267..74885db 100644
--- a/src/jsiLexer.c
+++ b/src/jsiLexer.c
@@ -486,8 +486,10 @@ static int jsi_yylex (YYSTYPE *yylvalp, YYLTYPE *yyllocp, jsi_Lexer *lex)
     } else if (c == '"' || c == '\'' || c == '`') {
         lexer_ungetc(c, lex);
         yylvalp->vstr = jsi_do_string(lex);
-        if (!yylvalp->vstr)
+        if (!yylvalp->vstr) {
+            lex->pstate->err_count++; // Not the end of the program.
             return 0;
+        }
         LOCATION_END(yyllocp, lex);
         return STRING;
     } else if (isalpha(c) || c == '_' || c == '$') {
@@ -522,8 +524,10 @@ static int jsi_yylex (YYSTYPE *yylvalp, YYLTYPE *yyllocp, jsi_Lexer *lex)
             lexer_ungetc(c, lex);
             
             char *regtxt = jsi_do_regex(lex);
-            if (!regtxt)
+            if (!regtxt) {
+                lex->pstate->err_count++;
                 return 0;
+            }
             Jsi_Regex *re = Jsi_RegExpNew(interp, regtxt, JSI_REG_STATIC);
             if (!(yylvalp->regex = re) && !(interp->noEval && interp->noES6)) {
                  Jsi_Free(regtxt);
-- 
2.43.0


From abd1381c764455bdb6849d999e253bdbff83d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:15 +0000
Subject: [PATCH 161/192] fix: the variables of a function after "()=>" in it,
 and those of arrow functions with a block body, were declared in the wrong
 scope: they became global or visible outside

---
 src/parser.y | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parser.y b/src/parser.y
index 81e151e..19de97f 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -581,8 +581,8 @@ argsa:
 ;
 
 arrowargs:
-    IDENTIFIER                      { $$ = jsi_argInsert(pstate, NULL, $1, NULL, &@1, 0); }
-    | '(' IDENTIFIER ',' argsa ')'  { $$ = jsi_argInsert(pstate, $4, $2, NULL, &@1, 1); }
+    IDENTIFIER                      { $$ = jsi_ArgsOptAdd(pstate, jsi_argInsert(pstate, NULL, $1, NULL, &@1, 0)); }
+    | '(' IDENTIFIER ',' argsa ')'  { $$ = jsi_ArgsOptAdd(pstate, jsi_argInsert(pstate, $4, $2, NULL, &@1, 1)); }
     | '('  ')'            { $$ = jsi_ArgsOptAdd(pstate, jsi_ScopeStrsNew()); }
 ;
 
@@ -633,14 +633,12 @@ expr:
     }
     | '(' expr ')'          { $$ = $2; }
     | arrowargs ARROW expr %prec '=' {
-        jsi_PstatePush(pstate);
         Jsi_Func *fn = jsi_FuncMake(pstate, $1, codes_join($3, code_ret(pstate, &@3, 1)), &@1, NULL, 1);
         if (yychar > 0) fn->endPos = yylloc.last_column; // The token after the expression was already read.
         $$ = code_push_func(pstate,  &@1, fn); 
         jsi_PstatePop(pstate);
     }
     | arrowargs ARROW func_statement_block {
-        jsi_PstatePush(pstate);
         $$ = code_push_func(pstate,  &@1, jsi_FuncMake(pstate, $1, $3, &@1, NULL, 1));
         jsi_PstatePop(pstate);
     }
-- 
2.43.0


From d760b0a9f403dd69532f75f63d1a787adc3f761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:40 +0000
Subject: [PATCH 162/192] fix: each failed parse inside a function left a scope
 open: after 4096 of them no function could declare variables

---
 src/jsiEval.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 12c0d09..048a268 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -43,7 +43,10 @@ static jsi_Pstate* jsiNewParser(Jsi_Interp* interp, const char *codeStr, Jsi_Cha
     interp->inParse++;
     topPs = interp->parsePs;
     interp->parsePs = ps;
+    int oscope = interp->cur_scope;
     yyparse(ps);
+    while (interp->cur_scope > oscope) // A failed parse inside of functions leaves their scopes.
+        jsi_PstatePop(ps);
     interp->parsePs = topPs;
     interp->inParse--;
     
-- 
2.43.0


From a8bc3379f73602c0f27a34096cb1e5ba455047a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:17 +0000
Subject: [PATCH 163/192] fix: the text of a function took along the tokens
 after it on the last line, when that line ended soon after

---
 src/jsiFunc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFunc.c b/src/jsiFunc.c
index 991f859..1045f90 100644
--- a/src/jsiFunc.c
+++ b/src/jsiFunc.c
@@ -507,7 +507,7 @@ Jsi_Func *jsi_FuncMake(jsi_Pstate *pstate, Jsi_ScopeStrs *args, Jsi_OpCodes *ops
     f->retType = (Jsi_otype)args->retType;
     if (l->ltype == LT_STRING)
         f->bodyStr = l->d.str;
-    f->endPos = l->cur;
+    f->endPos = l->cur - l->ungot - l->nlpend; // Without what was read ahead.
     f->startPos = -1; // Have to get these from newline count.
     if (f->retType & JSI_TT_UNDEFINED)
         Jsi_LogWarn("invalid use of 'undefined' in a return type: %s", name?name:"");
-- 
2.43.0


From 62ceccf3d4f9c8ab82b87fd9d5bf851bab576363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:25 +0000
Subject: [PATCH 164/192] fix: require with options did not check the requested
 version

---
 src/jsiCmds.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index d6fe54b..d8626cb 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1014,11 +1014,11 @@ static Jsi_RC SysRequireCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     if (ver < 0)
         return JSI_ERROR;
     Jsi_RC rc = JSI_OK;
+    if (ver < n)
+        rc = Jsi_LogType("package '%s' downlevel: %." JSI_VERFMT_LEN JSI_NUMGFMT " < %." JSI_VERFMT_LEN JSI_NUMGFMT, name, ver, n);
+    if (rc != JSI_OK)
+        return rc;
     if (argc==2) {
-        if (ver < n)
-            rc = Jsi_LogType("package '%s' downlevel: %." JSI_VERFMT_LEN JSI_NUMGFMT " < %." JSI_VERFMT_LEN JSI_NUMGFMT, name, ver, n);
-        if (rc != JSI_OK)
-            return rc;
         return jsi_PkgDumpInfo(interp, name, ret, n);
     }
     Jsi_Value *opts = Jsi_ValueArrayIndex(interp, args, 2);
-- 
2.43.0


From bfd30b5ac2e5d241c457085dd71cbce4334b6055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:33 +0000
Subject: [PATCH 165/192] fix: a package whose file failed after its provide
 was taken as loaded by the next require

---
 src/jsiCmds.c | 5 ++++-
 src/jsiInt.h  | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index d8626cb..6733039 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -732,6 +732,9 @@ static Jsi_RC jsi_PkgLoadOne(Jsi_Interp *interp, const char *name, const char *p
             needErr = 0;
         }
     }
+    jsi_PkgInfo *pkg = jsi_PkgGet(interp, name);
+    if (pkg && rc != JSI_CONTINUE)
+        pkg->loadErr = (rc == JSI_ERROR);
     if (rc == JSI_OK) {
         *fval = fpath;
     }
@@ -831,7 +834,7 @@ Jsi_PkgOpts *Jsi_CommandPkgOpts(Jsi_Interp *interp, Jsi_Func *func) {
 Jsi_Number Jsi_PkgRequireEx(Jsi_Interp *interp, const char *name, Jsi_Number version, Jsi_PkgOpts **poptsPtr)
 {
     jsi_PkgInfo *ptr = jsi_PkgGet(interp, name), *ptr2 = NULL;
-    if (ptr) {
+    if (ptr && !ptr->loadErr) {
         if (version)
             ptr->lastReq = version;
         if (ptr->initProc && ptr->needInit) {
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 3653313..f40097c 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -917,6 +917,7 @@ typedef struct jsi_PkgInfo {
     const char *loadFile;  // Full path of file name loaded.
     Jsi_InitProc *initProc; // For C-extensions.
     bool needInit;  // If a C-extension and _Init func needs calling in this interp.
+    bool loadErr;   // Its file failed: to be loaded again when required.
     Jsi_PkgOpts popts;
     jsi_FileInfo* filePtr;
     int log, logmask; // Runtime values set by moduleOps.
-- 
2.43.0


From c05a8dd3ecffccb550d4e9e66a325542b195e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:21 +0000
Subject: [PATCH 166/192] fix: import failed on a file ending with a // comment
 without a newline

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 048a268..96dc4c8 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2707,7 +2707,7 @@ cont:
             if (cnt>=MAX_LOOP_COUNT)
                 Jsi_LogError("source file too large");
             if (flags&JSI_EVAL_IMPORT)
-                Jsi_DSAppend(&dStr, "})(); ", NULL);
+                Jsi_DSAppend(&dStr, "\n})(); ", NULL);
             str = Jsi_DSValue(&dStr);
 
         }
-- 
2.43.0


From 8d49c2b1c395da33311603d21a56fc79f0455230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:18 +0000
Subject: [PATCH 167/192] fix: moduleRun with a function took its arguments as
 a version, and failed for a module of another file

---
 src/jsiCmds.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 6733039..509e534 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1121,7 +1121,6 @@ static Jsi_RC SysProvideCmdInt(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     Jsi_DString dStr;
     Jsi_DSInit(&dStr);
     Jsi_Func *f = NULL;
-    jsi_PkgInfo *pkg;
     if (!vname || Jsi_ValueIsNull(interp, vname)) {
         name = jsi_GetCurFile(interp);
         if (!name)
@@ -1134,11 +1133,9 @@ static Jsi_RC SysProvideCmdInt(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             Jsi_DSAppend(&dStr, name, NULL);
         name = Jsi_DSValue(&dStr);
 pkg:
-        if (isInt && (pkg=jsi_PkgGet(interp, name))) {
-            if (pkg->loadFile && pkg->loadFile == interp->framePtr->filePtr->fileName) {
-                Jsi_DSFree(&dStr);
-                return JSI_OK;
-            }
+        if (isInt && jsi_PkgGet(interp, name)) {
+            Jsi_DSFree(&dStr);
+            return JSI_OK;
         }
     } else if (Jsi_ValueIsString(interp, vname)) {
         name = Jsi_ValueString(interp, vname, NULL);
@@ -1153,7 +1150,7 @@ pkg:
     if (!name) 
         rc = Jsi_LogError("invalid or missing package name");
     else {
-        Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 1);
+        Jsi_Value *v = (isInt ? NULL : Jsi_ValueArrayIndex(interp, args, 1)); // In moduleRun that is the arguments.
         if (v && jsi_GetVerFromVal(interp, v, &n, 1) != JSI_OK)
             return JSI_ERROR;
         if (rc == JSI_OK) {
-- 
2.43.0


From 1d22ac4bf7741eb738a61ffd9e959e03b6b104a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:14 +0000
Subject: [PATCH 168/192] fix: a file (or eval text) that threw keeps its
 exception: run again, an error inside it that its own catch handles is
 reported as the earlier exception

---
 src/jsiEval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 96dc4c8..6204ffa 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -30,6 +30,8 @@ static jsi_Pstate* jsiNewParser(Jsi_Interp* interp, const char *codeStr, Jsi_Cha
 
     if (isNew==0 && ((ps = (jsi_Pstate *)Jsi_HashValueGet(hPtr)))) {
         interp->codeCacheHit++;
+        if (ps->last_exception) // Left by an earlier run of this code.
+            Jsi_ValueReset(interp, &ps->last_exception);
         return ps;
     }
     ps = jsi_PstateNew(interp);
-- 
2.43.0


From 3e856162dba1f99ff9e834198c0a7a3c47f94e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:16 +0000
Subject: [PATCH 169/192] fix: Zvfs.deflate gave nothing for most inputs,
 Zvfs.inflate accepted truncated data

---
 src/jsiZvfs.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index cd81f21..b1657b3 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -2273,7 +2273,7 @@ static Jsi_RC ZvfsDeflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     Jsi_DString dStr = {};
-    int sz, toOut, err, flag=0;
+    int sz, toOut, err, flag=Z_FINISH; // All of the input is there.
     char buf[JSI_BUFSIZ];
     z_stream stream = {};
     const char *str = Jsi_ValueArrayIndexToStr(interp, args, 0, &sz);
@@ -2299,8 +2299,6 @@ static Jsi_RC ZvfsDeflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             break;
         stream.avail_out = sizeof(buf);
         stream.next_out = (uchar*)buf;
-        if (!stream.avail_in)
-            flag = Z_FINISH;
     }
     err = deflateEnd(&stream);
     if (err!=Z_OK)
@@ -2335,9 +2333,8 @@ static Jsi_RC ZvfsInflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             goto bail;
         }
         toOut = sizeof(buf) - stream.avail_out;
-        if( toOut<=0)
-            break;
-        Jsi_DSAppendLen(&dStr, buf, toOut);
+        if( toOut>0)
+            Jsi_DSAppendLen(&dStr, buf, toOut);
         stream.avail_out = sizeof(buf);
         stream.next_out = (uchar*)buf;
         if (err== Z_STREAM_END)
-- 
2.43.0


From 04f05f680aa97e1bae6ffd8c20c7147bdc88face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:17 +0000
Subject: [PATCH 170/192] fix: compressed channels wrote corrupt data beyond 8K
 (and overran a buffer), and flush ended the stream

---
 src/jsiZvfs.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index b1657b3..7940a43 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1030,12 +1030,13 @@ static int Jfz_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
     stream->avail_out = sizeof(obuf);
     stream->next_in = (unsigned char*)buf;
     stream->avail_in = n = size;
-    while (stream->avail_in > 0 || buf == NULL) {
+    while (stream->avail_in > 0 || buf == NULL || size == 0) {
         stream->total_out = 0;
+        int pin = stream->avail_in;
         int status = deflate(stream, (buf?(size==0?Z_FULL_FLUSH:0):Z_FINISH));
         int out = stream->total_out;
         if (pInfo->emuGzip && buf && (status == Z_STREAM_END || status == Z_OK))
-            pInfo->iCRC = crc32(pInfo->iCRC, (unsigned char*)buf, size - stream->avail_in);
+            pInfo->iCRC = crc32(pInfo->iCRC, (unsigned char*)buf + (size - pin), pin - stream->avail_in);
         if ((status == Z_STREAM_END || status == Z_OK) && out>0)
         {
             if (pInfo->emuGzip && pInfo->readSoFar == 0 && /* Add gzip header */
@@ -1047,20 +1048,18 @@ writefail:
                 cnt = -1;
                 break;
             }
-            cnt += out;
-            pInfo->curPos = (pInfo->readSoFar += cnt);
-            stream->next_out = (unsigned char*)(obuf+cnt);
+            pInfo->curPos = (pInfo->readSoFar += out);
+            stream->next_out = (unsigned char*)obuf;
             stream->avail_out = sizeof(obuf);
-            if (pInfo->emuGzip && !buf) { /* Add gzip size and crc. */
+            if (pInfo->emuGzip && !buf && status == Z_STREAM_END) { /* Add gzip size and crc. */
                 char psp[8];
                 put32(psp, pInfo->iCRC);
                 put32(psp+4, pInfo->nByte);
                 if (Jsi_Write(interp, pInfo->chan, (char*)psp, 8) != 8)
                     goto writefail;
             }
-            //cnt += out;
         }
-        pInfo->nByte += (size - stream->avail_in);
+        pInfo->nByte += (pin - stream->avail_in);
         if (status == Z_STREAM_END)
             break;
         if (status != Z_OK) {
@@ -1068,7 +1067,7 @@ writefail:
             cnt = -1;
             break;
         }
-        if (!buf)
+        if (buf && size == 0 && out < (int)sizeof(obuf))
             break;
     }
     return cnt;
@@ -1077,7 +1076,8 @@ writefail:
 
 static int Jfz_FSFlushProc(Jsi_Channel chan) {
     ZVFSSIGASSERT((ZvfsChannelInfo*)chan->data, PINFO);
-    Jfz_FSWriteProc(chan, NULL, 0);
+    if (!(chan->flags & JSI_FS_READONLY) && ((ZvfsChannelInfo*)chan->data)->nByte)
+        Jfz_FSWriteProc(chan, "", 0);
     return 0;
 }
 
-- 
2.43.0


From 28b69a54cb8921718232f03e58fea0884f4f2343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:18 +0000
Subject: [PATCH 171/192] fix: reading compressed channels lost data, failed
 above 8K or on gzip headers with a file name

---
 src/jsiZvfs.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 7940a43..09669f6 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -1105,7 +1105,7 @@ static int Jfz_FSReadProc(Jsi_Channel chan, char *s, int size) {
     int bsize = sizeof(pInfo->buf);
     stream->next_out = (unsigned char*)s;
     int oaout = stream->avail_out = size;
-    if (rem <= 0)
+    if (pInfo->bpos) // At end of stream.
         return 0;
     
     while (cnt<size)
@@ -1115,19 +1115,43 @@ static int Jfz_FSReadProc(Jsi_Channel chan, char *s, int size) {
       {
         // Input buffer is empty, so read more bytes from input file.
         int n = (rem<bsize? rem : bsize);
+        if (n < 0) n = 0;
 
         if (pInfo->emuGzip && pInfo->readSoFar == 0) { /* Strip gzip header */
             if (Jsi_Read(interp, pInfo->chan, pInfo->buf, 10) != 10)
                 goto readFail;
-            n -= 10;
             const char *cp = pInfo->buf;
             if (cp[0] != '\37' || cp[1] != '\213' || cp[2] != '\10') {
                 Jsi_LogError("not a gzip file");
                 return -1;
             }
+            int fl = cp[3], hlen = 10, xlen;
+            char ch = 0;
+            if (fl&4) { // Extra field.
+                if (Jsi_Read(interp, pInfo->chan, pInfo->buf, 2) != 2)
+                    goto readFail;
+                xlen = (uchar)pInfo->buf[0] + ((uchar)pInfo->buf[1]<<8);
+                for (hlen += 2+xlen; xlen>0; xlen--)
+                    if (Jsi_Read(interp, pInfo->chan, &ch, 1) != 1)
+                        goto readFail;
+            }
+            for (xlen = ((fl&8)!=0) + ((fl&16)!=0); xlen>0; xlen--) // Name and comment.
+                do {
+                    hlen++;
+                    if (Jsi_Read(interp, pInfo->chan, &ch, 1) != 1)
+                        goto readFail;
+                } while (ch);
+            if (fl&2) {
+                hlen += 2;
+                if (Jsi_Read(interp, pInfo->chan, pInfo->buf, 2) != 2)
+                    goto readFail;
+            }
+            pInfo->readSoFar = hlen;
+            rem -= hlen;
+            n = (rem<bsize? rem : bsize);
         }
             
-        if (Jsi_Read(interp, pInfo->chan, pInfo->buf, n) != n)
+        if (n > 0 && Jsi_Read(interp, pInfo->chan, pInfo->buf, n) != n)
         {
 readFail:
             Jsi_LogError("Failed reading from input file!");
@@ -1151,9 +1175,10 @@ readFail:
         stream->avail_out = (size-cnt);
       }
 
-      if (status == Z_STREAM_END)
+      if (status == Z_STREAM_END) {
+        pInfo->bpos = 1;
         break;
-      else if (status != Z_OK)
+      } else if (status != Z_OK)
       {
         Jsi_LogError("inflate failed: %s", stream->msg);
         return -1;
@@ -1198,10 +1223,12 @@ static char * Jfz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
     int n = 0;
     *s = 0;
     while (n<(size-1)) {
-        int m = Jfz_FSReadProc(chan, pInfo->buf, 1);
-        if (m <= 0)
+        int m = Jfz_FSReadProc(chan, cp, 1);
+        if (m <= 0) {
+            if (n==0)
+                return NULL;
             break;
-        *cp = pInfo->buf[0];
+        }
         if (*cp == '\n') {
             n++;
             break;
-- 
2.43.0


From a52d424d1b55e48782377cb339fa04e0edfe78f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:19 +0000
Subject: [PATCH 172/192] fix: archives: small or incompressible files were
 listed as stored while deflated, and utf-8 names were not marked

---
 src/jsiZvfs.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 09669f6..03c48c8 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -95,7 +95,8 @@ typedef struct ZFile {
     int nExtra;          /* Extra space in the TOC header */
     int iCRC;            /* Cyclic Redundancy Check of the data */
     int permissions;     /* File permissions. */
-    int flags;            /* Deletion = bit 0. */
+    int flags;            /* General purpose flags. */
+    int method;          /* Compression method: 8=deflate, 0=none */
     struct ZFile *pNext;        /* Next file in the same archive */
 } ZFile;
 
@@ -135,7 +136,7 @@ typedef struct ZvfsChannelInfo {
 ** the array.
 */
 #define INT16(B, N) (B[N] + (B[N+1]<<8))
-#define INT32(B, N) (INT16(B,N) + (B[N+2]<<16) + (B[N+3]<<24))
+#define INT32(B, N) ((int)(INT16(B,N) + (B[N+2]<<16) + ((unsigned)B[N+3]<<24)))
 
 
 /*
@@ -1744,13 +1745,15 @@ static Jsi_RC writeFile(
     p->nExtra = 0;
     p->iCRC = 0;
     p->permissions = stat.st_mode;
+    p->method = (isdir ? 0 : 8);
+    p->flags = 0x800; // Names are utf-8.
 
     /* Fill in as much of the header as we know.
     */
     put32(&zHdr[0], 0x04034b50);
     put16(&zHdr[4], 0x0014);
-    put16(&zHdr[6], 0);
-    put16(&zHdr[8], 8);
+    put16(&zHdr[6], p->flags);
+    put16(&zHdr[8], p->method);
     put16(&zHdr[10], p->dosTime);
     put16(&zHdr[12], p->dosDate);
     put16(&zHdr[26], nameLen);
@@ -1925,8 +1928,8 @@ static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
         put32(&zBuf[0], 0x02014b50);
         put16(&zBuf[4], 0x0317);
         put16(&zBuf[6], 0x0014);
-        put16(&zBuf[8], 0);
-        put16(&zBuf[10], pList->nByte>pList->nByteCompr ? 0x0008 : 0x0000);
+        put16(&zBuf[8], pList->flags);
+        put16(&zBuf[10], pList->method);
         put16(&zBuf[12], pList->dosTime);
         put16(&zBuf[14], pList->dosDate);
         put32(&zBuf[16], pList->iCRC);
@@ -1937,7 +1940,7 @@ static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
         put16(&zBuf[32], pList->nExtra);
         put16(&zBuf[34], 1);
         put16(&zBuf[36], 0);
-        put32(&zBuf[38], pList->permissions<<16);
+        put32(&zBuf[38], (unsigned)pList->permissions<<16);
         put32(&zBuf[42], pList->iOffset);
         Jsi_Write(interp, chan, zBuf, 46);
         Jsi_Write(interp, chan, pList->zName, Jsi_Strlen(pList->zName));
-- 
2.43.0


From 48b7a95032d8bc734351789d9fe13563f272b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:20 +0000
Subject: [PATCH 173/192] fix: Zvfs.append lost the offsets, modes and
 directories of the entries already in the archive

---
 src/jsiZvfs.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 03c48c8..28ef348 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -352,8 +352,12 @@ static Jsi_RC ZvfsReadTOCStart(
         p->dosTime = INT16(zBuf, 12);
         p->nByteCompr = INT32(zBuf, 20);
         p->nByte = INT32(zBuf, 24);
-        p->nExtra = INT32(zBuf, 28);
+        p->nExtra = 0;
         p->iCRC = INT32(zBuf, 16);
+        p->iOffset = iData;
+        p->method = INT16(zBuf, 10);
+        p->flags = INT16(zBuf, 8);
+        p->permissions = (0xffff&(INT32(zBuf, 38) >> 16));
 
         if (nFile < 0)
             break;
@@ -1924,7 +1928,6 @@ static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
 
     iTocStart = Jsi_Tell(interp, chan);
     for(; pList; pList=pList->pNext) {
-        if( pList->isSpecial ) continue;
         put32(&zBuf[0], 0x02014b50);
         put16(&zBuf[4], 0x0317);
         put16(&zBuf[6], 0x0014);
-- 
2.43.0


From b394957cc8901b8cee1d61f288c9e09bced1d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:21 +0000
Subject: [PATCH 174/192] fix: archive times were off by a month and wrong in
 minutes and seconds; a bad month read outside of a table

---
 src/jsiZvfs.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 28ef348..b17a206 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -168,7 +168,7 @@ static void deleteZFileList(ZFile *pList) {
 /* Convert DOS time to unix time. */
 static void UnixTimeDate(struct tm *tm, int *dosDate, int *dosTime) {
     *dosDate = ((((tm->tm_year-80)<<9)&0xfe00) | (((tm->tm_mon+1)<<5)&0x1e0) | (tm->tm_mday&0x1f));
-    *dosTime = (((tm->tm_hour<<11)&0xf800) | ((tm->tm_min<<5)&0x7e0) | (tm->tm_sec&0x1f));
+    *dosTime = (((tm->tm_hour<<11)&0xf800) | ((tm->tm_min<<5)&0x7e0) | ((tm->tm_sec>>1)&0x1f));
 }
 
 /* Convert DOS time to unix time. */
@@ -178,11 +178,12 @@ static time_t DosTimeDate(int dosDate, int dosTime) {
     now=time(NULL);
     tm = localtime(&now);
     tm->tm_year=(((dosDate&0xfe00)>>9) + 80);
-    tm->tm_mon=((dosDate&0x1e0)>>5);
+    tm->tm_mon=((dosDate&0x1e0)>>5)-1;
     tm->tm_mday=(dosDate & 0x1f);
     tm->tm_hour=(dosTime&0xf800)>>11;
     tm->tm_min=(dosTime&0x7e0)>>5;
-    tm->tm_sec=(dosTime&0x1f);
+    tm->tm_sec=(dosTime&0x1f)*2;
+    tm->tm_isdst=-1;
     return mktime(tm);
 }
 
@@ -1631,11 +1632,11 @@ static void translateDosTimeDate(char *zStr, int zsiz, int dosDate, int dosTime)
 
     snprintf(zStr, zsiz, "%02d-%s-%d %02d:%02d:%02d",
             dosDate & 0x1f,
-            zMonth[ ((dosDate&0x1e0)>>5) ],
+            zMonth[ ((dosDate&0x1e0)>>5)<=12 ? ((dosDate&0x1e0)>>5) : 0 ],
             ((dosDate&0xfe00)>>9) + 1980,
             (dosTime&0xf800)>>11,
-            (dosTime&0x7e)>>5,
-            dosTime&0x1f
+            (dosTime&0x7e0)>>5,
+            (dosTime&0x1f)*2
            );
 }
 
-- 
2.43.0


From a789318f50e84d77c29ea35730e3d95a330d1891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:22 +0000
Subject: [PATCH 175/192] fix: files of a mounted archive: seek, tell and eof
 were wrong, damaged data hung or overran a buffer, and read errors were taken
 as the end

---
 src/jsiFileCmds.c |  6 +++++-
 src/jsiFilesys.c  |  6 +++++-
 src/jsiZvfs.c     | 51 +++++++++++++++++++++++++++++------------------
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index f9c92cf..e6033ea 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -467,7 +467,7 @@ static Jsi_RC FileReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     SAFEACCESS(fname, 0, 0)
 
     Jsi_Channel chan = Jsi_Open(interp, fname, (mode ? mode : "rb"));
-    int n, sum = 0, cnt = 0;
+    int n = 0, sum = 0, cnt = 0;
     if (!chan) 
         return Jsi_LogError("failed open for read: %s", GSVal(fname));
     Jsi_DString dStr = {};
@@ -477,6 +477,10 @@ static Jsi_RC FileReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         sum += n;
     }
     Jsi_Close(interp, chan);
+    if (cnt<=MAX_LOOP_COUNT && n<0) {
+        Jsi_DSFree(&dStr);
+        return Jsi_LogError("failed read: %s", GSVal(fname));
+    }
     Jsi_ValueMakeDStringObject(interp, ret, &dStr);
     return JSI_OK;
 }
diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 69f3c9f..b87ba6e 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -870,7 +870,11 @@ static Jsi_RC FilesysReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         rsiz = sizeof(buf);
         if (nsiz>0 && ((sum+rsiz)>nsiz))
             rsiz = (nsiz-sum);
-        if ((n = Jsi_Read(interp, udf->chan, buf, rsiz)) <= 0)
+        if ((n = Jsi_Read(interp, udf->chan, buf, rsiz)) < 0) {
+            Jsi_DSFree(&dStr);
+            return Jsi_LogError("read failed: %s", udf->filename);
+        }
+        if (n == 0)
             break;
         Jsi_DSAppendLen(&dStr, buf, n);
         sum += n;
diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index b17a206..4f65bc5 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -827,7 +827,7 @@ static int vfsInput (
     int *pErrorCode          /* Location of error flag */
 ) {
     Jsi_Interp *interp = pInfo->interp;
-    if( toRead > (int)pInfo->nByte ) {
+    if( (unsigned)toRead > pInfo->nByte ) {
         toRead = pInfo->nByte;
     }
     if( toRead == 0 ) {
@@ -849,13 +849,14 @@ static int vfsInput (
                     len = COMPR_BUF_SIZE;
                 }
                 len = Jsi_Read(interp, pInfo->chan, (char*)pInfo->zBuf, len);
-                if (len==0) break;
+                if (len==0) { err = Z_STREAM_END; break; }
                 if (len<0) { err = Z_STREAM_END+1; break; }
                 pInfo->nByteCompr -= len;
                 stream->next_in = pInfo->zBuf;
                 stream->avail_in = len;
             }
             err = inflate(stream, Z_NO_FLUSH);
+            if (err == Z_BUF_ERROR && !stream->avail_out) err = Z_OK; // Wants more input, but has all that was asked for.
             if (err) break;
         }
         if (err == Z_STREAM_END) {
@@ -870,7 +871,7 @@ static int vfsInput (
     }
     pInfo->curPos = Jsi_Tell(interp, pInfo->chan);
 
-    if (toRead<0)
+    if (toRead<=0) // The archive is shorter than it claims.
         *pErrorCode = Z_STREAM_END;
     else {
         pInfo->nByte -= toRead;
@@ -885,7 +886,7 @@ static int vfsInput (
 */
 static int vfsSeek(
     ZvfsChannelInfo* pInfo,    /* The file structure */
-    long offset,                /* Offset to seek to */
+    Jsi_Wide offset,            /* Offset to seek to */
     int mode,                   /* One of SEEK_CUR, SEEK_SET or SEEK_END */
     int *pErrorCode             /* Write the error code here */
 ) {
@@ -893,7 +894,7 @@ static int vfsSeek(
     Jsi_Seek(interp, pInfo->chan, pInfo->curPos, SEEK_SET);
     switch( mode ) {
     case SEEK_CUR: {
-        offset += pInfo->readSoFar;
+        offset += pInfo->readSoFar - (pInfo->bsiz - pInfo->bpos);
         break;
     }
     case SEEK_END: {
@@ -906,9 +907,13 @@ static int vfsSeek(
     }
     }
     if (offset < 0) offset = 0;
+    if (offset > (Jsi_Wide)pInfo->readSoFar + pInfo->nByte) offset = (Jsi_Wide)pInfo->readSoFar + pInfo->nByte;
+    if (offset > INT_MAX) offset = INT_MAX;
+    pInfo->bpos = pInfo->bsiz = 0;
+    *pErrorCode = 0;
     if( !pInfo->isCompressed ) {
         Jsi_Seek(interp, pInfo->chan, offset + pInfo->startOfData, SEEK_SET);
-        pInfo->nByte = pInfo->nData;
+        pInfo->nByte += pInfo->readSoFar - offset;
         pInfo->readSoFar = offset;
     } else {
         if( offset<pInfo->readSoFar ) {
@@ -923,16 +928,21 @@ static int vfsSeek(
             pInfo->zBuf[1] = 0x01;
             inflateInit(&pInfo->stream);
             Jsi_Seek(interp, pInfo->chan, pInfo->startOfData, SEEK_SET);
+            pInfo->curPos = pInfo->startOfData;
             pInfo->nByte += pInfo->readSoFar;
             pInfo->nByteCompr = pInfo->nData;
             pInfo->readSoFar = 0;
         }
         while( pInfo->readSoFar < offset ) {
-            int toRead, errCode;
+            int errCode;
+            long toRead;
             char zDiscard[100];
             toRead = offset - pInfo->readSoFar;
             if( toRead>(int)sizeof(zDiscard) ) toRead = (int)sizeof(zDiscard);
-            vfsInput(pInfo, zDiscard, toRead, &errCode);
+            if (vfsInput(pInfo, zDiscard, toRead, &errCode) <= 0) {
+                *pErrorCode = errCode;
+                break;
+            }
         }
     }
     pInfo->curPos = Jsi_Tell(interp, pInfo->chan);
@@ -1508,12 +1518,12 @@ static int Jaz_FSFlushProc(Jsi_Channel chan) {
 
 static int Jaz_FSTellProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    return pInfo->curPos;
+    return pInfo->readSoFar - (pInfo->bsiz - pInfo->bpos);
 }
 
 static int Jaz_FSEofProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
-    return (pInfo->curPos >= pInfo->pFile->nByte);
+    return (pInfo->nByte <= 0 && pInfo->bpos >= pInfo->bsiz);
 }
 
 static int Jaz_FSRewindProc(Jsi_Channel chan) {
@@ -1539,10 +1549,13 @@ static int Jaz_FSReadProc(Jsi_Channel chan, char *s, int size) {
     *s = 0;
     while (n<size) {
         if (pInfo->bpos >= pInfo->bsiz) {
-            if (!(pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))) {
+            pInfo->bpos = 0;
+            if ((pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))<=0) {
+                pInfo->bsiz = 0;
+                if (rc)
+                    return -1;
                 break;
             }
-            pInfo->bpos = 0;
         }
         *cp = pInfo->buf[pInfo->bpos++];
         n++;
@@ -1557,12 +1570,13 @@ static int Jaz_FSGetcProc(Jsi_Channel chan) {
     ZvfsChannelInfo *pInfo = (ZvfsChannelInfo*)chan->data;
     int rc = 0;
     if (pInfo->bpos >= pInfo->bsiz) {
-        if (!(pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))) {
-            return 0;
-        }
         pInfo->bpos = 0;
+        if ((pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))<=0) {
+            pInfo->bsiz = 0;
+            return -1;
+        }
     }
-    return pInfo->buf[pInfo->bpos++];
+    return (unsigned char)pInfo->buf[pInfo->bpos++];
 }
 
 static int Jaz_FSUngetcProc(Jsi_Channel chan, int ch) {
@@ -1583,14 +1597,13 @@ static char * Jaz_FSGetsProc(Jsi_Channel chan, char *s, int size) {
     *s = 0;
     while (n<(size-1)) {
         if (pInfo->bpos >= pInfo->bsiz) {
-            if ((int)pInfo->stream.total_out >= pInfo->pFile->nByte)
-                return NULL;
+            pInfo->bpos = 0;
             if ((pInfo->bsiz = vfsInput(pInfo, pInfo->buf, sizeof(pInfo->buf), &rc))<=0) {
+                pInfo->bsiz = 0;
                 if (n==0)
                     return NULL;
                 break;
             }
-            pInfo->bpos = 0;
         }
         *cp = pInfo->buf[pInfo->bpos++];
         if (*cp == '\n') {
-- 
2.43.0


From 5abe1a87bcb715a561714f0def89a6ada98e8979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:23 +0000
Subject: [PATCH 176/192] fix: a failed mount left its archive half mounted,
 and truncated archives were read from stale buffers

---
 src/jsiZvfs.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 4f65bc5..8546742 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -299,8 +299,7 @@ static Jsi_RC ZvfsReadTOCStart(
     */
     Jsi_Seek(interp, chan, -22, SEEK_END);
     iPos = Jsi_Tell(interp, chan);
-    Jsi_Read(interp, chan, (char*)zBuf, 22);
-    if (memcmp(zBuf, "\120\113\05\06", 4)) {
+    if (Jsi_Read(interp, chan, (char*)zBuf, 22) != 22 || memcmp(zBuf, "\120\113\05\06", 4)) {
         /* Jsi_LogError("not a ZIP archive"); */
         return JSI_BREAK;
     }
@@ -331,8 +330,7 @@ static Jsi_RC ZvfsReadTOCStart(
         ** the size of the "extra" information, and the offset into the archive
         ** file of the file data.
         */
-        Jsi_Read(interp, chan, (char*)zBuf, 46);
-        if (memcmp(zBuf, "\120\113\01\02", 4)) 
+        if (Jsi_Read(interp, chan, (char*)zBuf, 46) != 46 || memcmp(zBuf, "\120\113\01\02", 4)) 
             return Jsi_LogError("ill-formed central directory entry");
         lenName = INT16(zBuf,28);
         lenExtra = INT16(zBuf,30) + INT16(zBuf,32);
@@ -344,7 +342,8 @@ static Jsi_RC ZvfsReadTOCStart(
         p = newZFile(lenName, pList);
         if (!p) break;
 
-        Jsi_Read(interp, chan, p->zName, lenName);
+        if (Jsi_Read(interp, chan, p->zName, lenName) != lenName)
+            return Jsi_LogError("ill-formed central directory entry");
         p->zName[lenName] = 0;
         if (lenName>0 && p->zName[lenName-1] == '/') {
             p->isSpecial = 1;
@@ -449,6 +448,8 @@ static Jsi_RC ZvfsNamesCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     return rc;
 }
 
+static Jsi_RC Zvfs_Unmount(Jsi_Interp *interp, Jsi_Value *path);
+
 #define FN_mount JSI_INFO("\
 Read a ZIP archive and make entries in the virutal file hash table for all \
 files contained therein.")
@@ -496,8 +497,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         goto bail;
     }
     iPos = Jsi_Tell(interp, chan);
-    Jsi_Read(interp, chan, (char*)zBuf, 22);
-    if (memcmp(zBuf, "\120\113\05\06", 4)) {
+    if (Jsi_Read(interp, chan, (char*)zBuf, 22) != 22 || memcmp(zBuf, "\120\113\05\06", 4)) {
         if (ret && *ret)
             Jsi_LogError("not a ZIP archive");
         goto bail;
@@ -528,6 +528,8 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
     pArchive->pFiles = 0;
     Jsi_HashValueSet(pEntry, pArchive);
     pArchive->pEntry = pEntry;
+    pArchive->chan = chan;
+    interp->mountCnt++;
 
     /* Compute the starting location of the directory for the ZIP archive
     ** in iPos then seek to that location.
@@ -559,11 +561,9 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         ** the size of the "extra" information, and the offset into the archive
         ** file of the file data.
         */
-        Jsi_Read(interp, chan, (char*)zBuf, 46);
-        if (memcmp(zBuf, "\120\113\01\02", 4)) {
+        if (Jsi_Read(interp, chan, (char*)zBuf, 46) != 46 || memcmp(zBuf, "\120\113\01\02", 4)) {
             Jsi_LogError("ill-formed central directory entry");
-            //TODO: cleanup.
-            goto bail;
+            goto bailun;
         }
         lenName = INT16(zBuf,28);
         lenExtra = INT16(zBuf,30) + INT16(zBuf,32);
@@ -582,7 +582,7 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         */
         rb = Jsi_Read(interp, chan, zName, lenName);
         if (rb != lenName)
-            goto bail;
+            goto bailun;
         isdir=0;
         if (lenName>0 && zName[lenName-1] == '/') {
             lenName--;
@@ -638,16 +638,19 @@ skip:
         */
         Jsi_Seek(interp, chan, lenExtra, SEEK_CUR);
     }
-    pArchive->chan = chan;
 
     if (ret && *ret)
         Jsi_ValueMakeStringDup(interp, ret, zMountPoint);
     Jsi_DSFree(&mStr);
     Jsi_DSFree(&pStr);
-    interp->mountCnt++;
 //done:
     return JSI_OK;
 
+bailun:
+    Jsi_DSFree(&mStr);
+    Zvfs_Unmount(interp, pArchive->MountPoint);
+    return JSI_ERROR;
+
 bail:
     if (chan)
         Jsi_Close(interp, chan);
@@ -1678,6 +1681,7 @@ static Jsi_RC ZvfsListCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_RC rc = ZvfsReadTOC(interp, chan, &pList);
     if( rc==JSI_ERROR ) {
         deleteZFileList(pList);
+        Jsi_Close(interp, chan);
         return rc;
     }
     Jsi_Close(interp, chan);
-- 
2.43.0


From a067273c5bd09a8d4b13ba002f435ff9b47d725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:24 +0000
Subject: [PATCH 177/192] fix: archives: files named like "a." were left out,
 names like ".../x" moved, entries could land outside of the mount point, and
 the list header lacked a column

---
 src/jsiZvfs.c | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 8546742..86afa98 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -247,7 +247,7 @@ static char *CanonicalPath(const char *zRoot, const char *zTail) {
                     i++;
                     continue;
                 }
-                if( c3=='.' && (zPath[i+3]=='.' || zPath[i+3]==0) ) {
+                if( c3=='.' && (zPath[i+3]=='/' || zPath[i+3]==0) ) {
                     i += 2;
                     while( j>0 && zPath[j-1]!='/' ) {
                         j--;
@@ -590,6 +590,10 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         }
         zName[lenName] = 0;
         zFullPath = CanonicalPath(zMountPoint, zName);
+        if (Jsi_Strncmp(zFullPath, zMountPoint, Jsi_Strlen(zMountPoint)) || zFullPath[Jsi_Strlen(zMountPoint)] != '/') {
+            Jsi_Free(zFullPath); // Outside of the mount point.
+            goto skip;
+        }
 addentry:
         pEntry = Jsi_HashEntryNew(jsiIntData.zvfslocal.fileHash, zFullPath, &isNew);
         if (!isNew) {
@@ -1408,14 +1412,16 @@ static int Jaz_FSScandirProc(Jsi_Interp *interp, Jsi_Value *dirpath, Jsi_Dirent
 #ifndef __WIN32
         dd.d_type = (pFile->isdir ? DT_DIR : DT_REG);
 #endif
-        Jsi_Strncpy(dd.d_name,  z, sizeof(dd.d_name));
+        if (Jsi_Strlen(z) >= sizeof(dd.d_name))
+            continue;
+        Jsi_Strcpy(dd.d_name, z);
         if (filter && !(filter)(&dd))
             continue;
         if (n >= deSpace) {
             deSpace += 50;
             dep = (Jsi_Dirent**)Jsi_Realloc(dep, deSpace * sizeof(Jsi_Dirent*));
         }
-        de = dep[n] = (Jsi_Dirent*)Jsi_Calloc(deSpace, sizeof(Jsi_Dirent));
+        de = dep[n] = (Jsi_Dirent*)Jsi_Calloc(1, sizeof(Jsi_Dirent));
         *de = dd;
         n++;
     }
@@ -1689,7 +1695,7 @@ static Jsi_RC ZvfsListCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_ValueMakeArrayObject(interp, ret, nobj);
     sobj = Jsi_ObjNew(interp);
     sval = Jsi_ValueMakeArrayObject(interp, NULL, sobj);
-    static const char *keys[] = {"Name", "Special", "Offset", "Bytes", "BytesCompressed", "CRC", 0 };
+    static const char *keys[] = {"Name", "Date", "Special", "Offset", "Bytes", "BytesCompressed", "CRC", 0 };
     int i;
     for (i=0; keys[i]; i++)
         Jsi_ObjArrayAdd(interp, sobj, Jsi_ValueNewStringKey(interp, keys[i]));
@@ -1984,27 +1990,6 @@ static void writeTOC(Jsi_Interp *interp, Jsi_Channel chan, ZFile *pList) {
     Jsi_Flush(interp, chan);
 }
 
-static const char *
-GetExtension( const char *name)
-{
-    const char *p, *lastSep;
-#ifdef __WIN32__
-    lastSep = NULL;
-    for (p = name; *p != '\0'; p++) {
-        if (Jsi_Strchr("/\\:", *p) != NULL) {
-            lastSep = p;
-        }
-    }
-#else
-    lastSep = Jsi_Strrchr(name, '/');
-#endif
-    p = Jsi_Strrchr(name, '.');
-    if ((p != NULL) && (lastSep != NULL) && (lastSep > p)) {
-        p = NULL;
-    }
-    return p;
-}
-
 static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                         Jsi_Value **ret, Jsi_Func *funcPtr, int append)
 {
@@ -2090,7 +2075,8 @@ static Jsi_RC CreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             Jsi_Channel in;
             char *fname = Jsi_ValueString(interp, Src, 0);
             
-            ext = (fname?GetExtension(fname):NULL);
+            ext = (fname?Jsi_Strrchr(fname, '/'):NULL);
+            ext = (ext?ext+1:fname);
             if (ext && *ext == '.' && (ext[1] == 0 || (ext[1] == '.' && ext[2] == 0)))
                 continue;
             if (prefix && !Jsi_ValueIsNull(interp, prefix)) {
-- 
2.43.0


From 3ef1485270809750e86e71e581209ab2c8c4b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:46 +0000
Subject: [PATCH 178/192] fix: a text with a syntax error inside of a switch
 case leaked the compiled cases

---
 src/jsiCode.c | 10 +++++++++-
 src/parser.y  |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jsiCode.c b/src/jsiCode.c
index b20a9db..dff8279 100644
--- a/src/jsiCode.c
+++ b/src/jsiCode.c
@@ -567,12 +567,20 @@ static jsi_CaseList *caselist_insert(jsi_Pstate *pstate, jsi_CaseList *a, jsi_Ca
     return a;
 }
 
+static void caseitem_free(jsi_CaseExprStat *es)
+{
+    if (!es) return;
+    jsi_FreeOpcodes(es->expr);
+    jsi_FreeOpcodes(es->stat);
+    Jsi_Free(es);
+}
+
 static void caselist_free(jsi_CaseList *c)
 {
     jsi_CaseList *a = c;
     while (a) {
         a = c->next;
-        if (c->es) Jsi_Free(c->es);
+        caseitem_free(c->es);
         Jsi_Free(c);
         c = a;
     }
diff --git a/src/parser.y b/src/parser.y
index 19de97f..5b4309d 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -33,7 +33,7 @@
 %destructor { Jsi_Free($$); } <num>
 %destructor { jsi_ScopeStrsFree(pstate->interp, $$); } <scopes>
 %destructor { jsi_FreeOpcodes($$); } <opcodes>
-%destructor { Jsi_Free($$); } <caseitem>
+%destructor { caseitem_free($$); } <caseitem>
 %destructor { caselist_free($$);} <caselist>
 //%destructor { Jsi_RegExpFree($$); } <regex>
 /*
-- 
2.43.0


From 6a920f5481d1770dfcee171a517f464712db539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:46 +0000
Subject: [PATCH 179/192] fix: new Sqlite() leaked the database handle when the
 database could not be opened

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index b8c8bc8..b5c76d9 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3877,6 +3877,8 @@ bail:
     if (rc != JSI_OK) {
         if (db->hasOpts)
             Jsi_OptionsFree(interp, SqlOptions, db, 0);
+        if (db->db)
+            DbClose(db->db);
         db->_->activeCnt--;
         Jsi_Free(db);
     }
-- 
2.43.0


From 35804d93fae3cd2cb93357b6527b9154bf294296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:11 +0000
Subject: [PATCH 180/192] fix: Zvfs.inflate did not end on some truncated
 streams

---
 src/jsiZvfs.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 86afa98..58ac293 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -2372,6 +2372,11 @@ static Jsi_RC ZvfsInflateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         toOut = sizeof(buf) - stream.avail_out;
         if( toOut>0)
             Jsi_DSAppendLen(&dStr, buf, toOut);
+        else if (err == Z_OK && stream.avail_in == 0) { // Truncated.
+            err = Z_BUF_ERROR;
+            inflateEnd(&stream);
+            goto bail;
+        }
         stream.avail_out = sizeof(buf);
         stream.next_out = (uchar*)buf;
         if (err== Z_STREAM_END)
-- 
2.43.0


From 239d44618eff5c365d039d8c6933cdff5787af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:31 +0000
Subject: [PATCH 181/192] fix: a damaged archive directory size overflowed
 (signed) in list and mount

---
 src/jsiZvfs.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jsiZvfs.c b/src/jsiZvfs.c
index 58ac293..fe74b6b 100644
--- a/src/jsiZvfs.c
+++ b/src/jsiZvfs.c
@@ -309,6 +309,8 @@ static Jsi_RC ZvfsReadTOCStart(
     */
     zipStart = iPos;
     nFile = INT16(zBuf,8);
+    if (INT32(zBuf,12) < 0 || INT32(zBuf,12) > iPos)
+        return JSI_BREAK;
     iPos -= INT32(zBuf,12);
     Jsi_Seek(interp, chan, iPos, SEEK_SET);
 
@@ -503,6 +505,12 @@ Jsi_RC Zvfs_Mount( Jsi_Interp *interp, Jsi_Value *archive, Jsi_Value *mount, Jsi
         goto bail;
     }
 
+    if (INT32(zBuf,12) < 0 || INT32(zBuf,12) > iPos) {
+        if (ret && *ret)
+            Jsi_LogError("not a ZIP archive");
+        goto bail;
+    }
+
     /* Construct the archive record
     */
     zArchiveName = Jsi_ValueNormalPath(interp, archive, &pStr);
-- 
2.43.0


From 6340c6f95510ed30c85ed77f9aa35607d600282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 182/192] fix: messages queued on a socket were sent last
 first, and one partly sent was freed

---
 src/jsiSocket.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 69cd020..7c1cf31 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -765,7 +765,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
         if (deleted) return JSI_ERROR;
         n=0;
         while (1) {
-            Jsi_Value *dv = (Jsi_Value*)Jsi_StackPeek(pss->stack);
+            Jsi_Value *dv = (Jsi_Value*)Jsi_StackHead(pss->stack);
             char *data;
             int sLen;
             if (dv == NULL || (data=Jsi_ValueString(interp, dv, &sLen)) == NULL)
@@ -786,7 +786,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
                 return JSI_ERROR;
             }
             if (n >= osiz) {
-                Jsi_StackPop(pss->stack);
+                Jsi_StackUnshift(pss->stack);
                 pss->offset = 0;
             } else {
                 if (cmdPtr->debug)
@@ -795,7 +795,8 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
             }
             if (cmdPtr->debug)
                 fprintf(stderr, "SOCK:CLIENT WRITE(%d): %d=>%d: %s\n", pss->id, sLen, n, data);
-            Jsi_DecrRefCount(interp, dv);                                   
+            if (pss->offset == 0)
+                Jsi_DecrRefCount(interp, dv);
             if (n >= 0) {
                 pss->sentCnt++;
                 pss->sentLast = time(NULL);
-- 
2.43.0


From f66965078c0674c5981f25ed8176da21bf4927a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 183/192] fix: Socket recv handed out its stack buffer to be
 freed, ignored its id and cut datagrams at 8191 bytes

---
 src/jsiSocket.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 7c1cf31..d474699 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -485,15 +485,17 @@ static Jsi_RC SocketRecvCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 
     SocketPss *pss = &cmdPtr->stats;
     int id = 0, argc = Jsi_ValueGetLength(interp, args);
-    if (argc>1) {
+    if (argc>0) {
         if (sockGetPssId(cmdPtr, Jsi_ValueArrayIndex(interp, args, 0), &id) != JSI_OK)
             return JSI_ERROR;
+        if (!(pss = sockFindPss(cmdPtr, id)))
+            return Jsi_LogError("No such id: %d", id);
     }
-    char buf[JSI_BUFSIZ];
+    char buf[65536];
     int n;
     pss->siLen = sockAddrSize(&pss->recvAddr);
     if (cmdPtr->udp)
-        n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->sendFlags, (struct sockaddr*)&pss->recvAddr.sin, &pss->siLen);
+        n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags, (struct sockaddr*)&pss->recvAddr.sin, &pss->siLen);
     else
         n = recv(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags);
     if (n>0)
@@ -504,7 +506,7 @@ static Jsi_RC SocketRecvCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     unsigned char *uptr = (unsigned char*)Jsi_Malloc(n+1);
     memcpy(uptr, buf, n+1);
     uptr[n] = 0;
-    Jsi_ValueMakeBlob(interp, ret, (unsigned char*)buf, n);
+    Jsi_ValueMakeBlob(interp, ret, uptr, n);
     return JSI_OK;
 }
 
@@ -866,7 +868,7 @@ static Jsi_RC sock_handler(SocketObj *cmdPtr, callback_reasons reason, SocketPss
 
 static Jsi_RC jsk_Service(SocketObj *cmdPtr)
 {
-    char buf[JSI_BUFSIZ];
+    char buf[65536]; // Holds any datagram.
     struct sockaddr_in sin;
     fd_set writeSet, readSet;
     int i, n, cnt = 0;
-- 
2.43.0


From f87d5d13ed9067bb81dd83d619754f6930c797ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 184/192] fix: Socket send read its options from the message,
 and did not count a message sent at once

---
 src/jsiSocket.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index d474699..36d635e 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -428,7 +428,7 @@ static Jsi_RC SocketSendCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected int id or options object");
     Jsi_Value *arg2 = Jsi_ValueArrayIndex(interp, args, 2);
     if (argc>2 && arg2 &&
-        Jsi_OptionsProcess(interp, SockSendOptions, &opts, arg, 0) < 0)
+        Jsi_OptionsProcess(interp, SockSendOptions, &opts, arg2, 0) < 0)
         return JSI_ERROR;
    /* if (cmdPtr->udp) {
         Jsi_IncrRefCount(interp, arg);
@@ -459,6 +459,14 @@ process:
                     n = send(pss->fd, str, aLen, cmdPtr->sendFlags);
                 if (n != aLen)
                     rc = Jsi_LogError("wrote only %d of %d bytes", n, aLen);
+                else {
+                    pss->sentCnt++;
+                    pss->sentLast = time(NULL);
+                    if (!cmdPtr->client && pss != &cmdPtr->stats) {
+                        cmdPtr->stats.sentCnt++;
+                        cmdPtr->stats.sentLast = time(NULL);
+                    }
+                }
             } else {
                 if (!cmdPtr->echo && pss->echo)
                     Jsi_LogInfo("WS-SEND: %s\n", str); 
-- 
2.43.0


From 4aa16d1368312fc456d807cd203cdd8494a3d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 185/192] fix: sending to a peer that is gone ended the process
 (SIGPIPE)

---
 src/jsiSocket.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index 36d635e..bded8c5 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -1081,6 +1081,9 @@ static Jsi_RC SocketConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     cmdPtr->interp = interp;
     cmdPtr->startTime = time(NULL);
     cmdPtr->timeout = 0.5;
+#ifdef MSG_NOSIGNAL
+    cmdPtr->sendFlags = MSG_NOSIGNAL; // A peer that is gone is an error of the send.
+#endif
     cmdPtr->hasOpts = 1;
     if ((arg != NULL && !Jsi_ValueIsNull(interp,arg))
         && Jsi_OptionsProcess(interp, SockOptions, cmdPtr, arg, 0) < 0) {
-- 
2.43.0


From d9d50ed070284cdc11fbc5787d332a629ec4869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 186/192] fix: closed connections of a Socket: close(id) closed
 all without a report, onClose was missed or ran again after an error or a
 failed write, an empty datagram closed the server

---
 src/jsiSocket.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/jsiSocket.c b/src/jsiSocket.c
index bded8c5..fc574ff 100644
--- a/src/jsiSocket.c
+++ b/src/jsiSocket.c
@@ -529,7 +529,7 @@ static Jsi_RC SocketCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch cursor;
     int id = 0, argc = Jsi_ValueGetLength(interp, args);
-    if (argc>1) {
+    if (argc>0) {
         if (sockGetPssId(cmdPtr, Jsi_ValueArrayIndex(interp, args, 0), &id) != JSI_OK)
             return JSI_ERROR;
     }
@@ -546,11 +546,10 @@ static Jsi_RC SocketCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             pss = (SocketPss *)Jsi_HashValueGet(hPtr);
             SIGASSERT(pss, SOCKETPSS);
             if ((id==-1 || pss->id == id) && pss->state != PSS_DEAD) {
-                if (pss->fd>=0) {
-                    close(pss->fd);
+                if (pss->fd>=0) { // The next service reports it, and closes it.
+                    shutdown(pss->fd, 2);
                     FD_CLR(pss->fd, &cmdPtr->writeSet);
-                    FD_CLR(pss->fd, &cmdPtr->readSet);
-                    pss->fd = -1;
+                    pss->state = PSS_DEAD;
                 }
             }
         }
@@ -931,22 +930,34 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 }
                 uint siLen = sockAddrSize(&pss->recvAddr);
                 if (cmdPtr->udp)
-                    n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->sendFlags, (struct sockaddr*)&pss->recvAddr.sin, &siLen);
+                    n = recvfrom(pss->fd, buf, sizeof(buf)-1, cmdPtr->recvFlags, (struct sockaddr*)&pss->recvAddr.sin, &siLen);
+                else if (pss != &cmdPtr->stats && pss->state == PSS_DEAD)
+                    n = 0;
                 else
                     n = recv(i, buf, sizeof(buf)-1, cmdPtr->recvFlags);
-                if (n<=0) {
+                if (cmdPtr->udp ? n<0 : n<=0) {
                     if (cmdPtr->debug)
                         fprintf(stderr, "read failed %d\n", i);
                     close(i);
                     FD_CLR(i, &cmdPtr->readSet);
                     FD_CLR(i, &cmdPtr->writeSet);
+                    if (pss == &cmdPtr->stats)
+                        pss->fd = -1;
                     sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0);
+                    continue;
                 }
-                buf[sizeof(buf)-1] = 0;
+                buf[n] = 0;
                 if (cmdPtr->debug)
                     fprintf(stderr, "Read data(%d): %s\n", n, buf);
-                if (n>0 && sock_handler(cmdPtr, SOCK_CALLBACK_RECEIVE, pss, buf, n) != JSI_OK) {
-                    sockDeletePss(pss);
+                if (sock_handler(cmdPtr, SOCK_CALLBACK_RECEIVE, pss, buf, n) != JSI_OK) {
+                    if (cmdPtr->deleted)
+                        goto done;
+                    if (pss != &cmdPtr->stats) {
+                        close(i);
+                        FD_CLR(i, &cmdPtr->readSet);
+                        FD_CLR(i, &cmdPtr->writeSet);
+                        sockDeletePss(pss);
+                    }
                     continue;
                 }
             }
@@ -964,7 +975,7 @@ static Jsi_RC jsk_Service(SocketObj *cmdPtr)
                 FD_CLR(pss->fd, &cmdPtr->writeSet);
                 FD_CLR(pss->fd, &cmdPtr->readSet);
                 pss->fd = -1;
-                sockDeletePss(pss);
+                sock_handler(cmdPtr, SOCK_CALLBACK_CLOSED, pss, NULL, 0);
                 if (cmdPtr->udp)
                     goto done;
                 continue;
-- 
2.43.0


From c76aa3cb7b69e39c42b7476d642a15f59da11c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:21 +0000
Subject: [PATCH 187/192] fix: an integer field took NaN and numbers outside
 its range as some other number, and an unsigned 64-bit field refused its
 upper half

---
 src/jsiOptions.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 1597cb0..f46e834 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -300,9 +300,16 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
             if (!Jsi_ValueIsNumber(interp, argValue))
                 goto bail;
 
-            if (Jsi_GetWideFromValue(interp, argValue, &wcount) != JSI_OK) {
+            if (Jsi_GetNumberFromValue(interp, argValue, &nv) != JSI_OK)
+                return JSI_ERROR;
+            bool isU64 = (specPtr->id == JSI_OPTION_UINT64 || specPtr->id == JSI_OPTION_SIZE_T
+                || specPtr->id == JSI_OPTION_ULONG || specPtr->id == JSI_OPTION_UINTPTR_T);
+            if (isU64 && nv >= 9223372036854775808.0 && nv < 18446744073709551616.0)
+                wcount = (Jsi_Wide)(uint64_t)nv;
+            else if (!(nv >= -9223372036854775808.0 && nv < 9223372036854775808.0)) // Outside of Jsi_Wide, or NaN.
+                return Jsi_LogType("not a %s", jsi_OptTypeInfo[specPtr->id].cName);
+            else if (Jsi_GetWideFromValue(interp, argValue, &wcount) != JSI_OK)
                 return JSI_ERROR;
-            }
             
         }
         switch (specPtr->id) {
-- 
2.43.0


From abff98477d07d53e2fe11a3d3aa9373c944de4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:21 +0000
Subject: [PATCH 188/192] fix: a NaN refused for a floating point field was
 stored in it all the same

---
 src/jsiOptions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index f46e834..df49c48 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -355,8 +355,8 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
             
         switch (specPtr->id) {
 #define _JSI_OPTSETNTYP(typ, n, ptr) if (!argValue) *(typ*)ptr = 0; else { if (isIncr) n += *((typ *)ptr); \
-            interp->cdataIncrVal = *((typ *)ptr) = (typ)(n); \
-            if (!interp->noCheck && Jsi_NumberIsNaN((Jsi_Number)(*((typ *)ptr)))) return Jsi_LogError("not a number"); }
+            if (!interp->noCheck && Jsi_NumberIsNaN((Jsi_Number)(typ)(n))) return Jsi_LogError("not a number"); \
+            interp->cdataIncrVal = *((typ *)ptr) = (typ)(n); }
 
             case JSI_OPTION_NUMBER: _JSI_OPTSETNTYP(Jsi_Number, nv, ptr); break;
             case JSI_OPTION_LDOUBLE: _JSI_OPTSETNTYP(ldouble, nv, ptr); break;
-- 
2.43.0


From 1d79ed7a226d324fde255cd407d6e98ab190f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:21 +0000
Subject: [PATCH 189/192] fix: a set of a DSTRING field leaked the text before
 it, and lost it for a value that was refused

---
 src/jsiOptions.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index df49c48..4a9999a 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -424,13 +424,14 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
         break;
         
     case JSI_OPTION_DSTRING:
-        Jsi_DSInit((Jsi_DString *)ptr);
-        if (argValue && !Jsi_ValueIsNull(interp, argValue))
-        {
+        if (!argValue || Jsi_ValueIsNull(interp, argValue))
+            Jsi_DSSetLength((Jsi_DString *)ptr, 0);
+        else {
             int sLen;
             const char *scp = Jsi_ValueString(interp, argValue, &sLen);
             if (!scp)
                 goto bail;
+            Jsi_DSSetLength((Jsi_DString *)ptr, 0);
             Jsi_DSAppendLen((Jsi_DString *)ptr, scp, sLen);
         }
         break;
-- 
2.43.0


From c3402ac4a994b424399ecce5b7fc32e409fee719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:21 +0000
Subject: [PATCH 190/192] fix: a number set in a TIME_W field was stored as the
 bits of a double

---
 src/jsiOptions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 4a9999a..f972397 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -461,7 +461,9 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
        if (argValue)
         {
             if (Jsi_ValueIsNumber(interp, argValue)) {
-                Jsi_GetNumberFromValue(interp, argValue, (Jsi_Number*)ptr);
+                Jsi_Number num = 0;
+                Jsi_GetNumberFromValue(interp, argValue, &num);
+                *(Jsi_Wide*)ptr = (Jsi_Wide)num;
             } else {
                 const char *scp;
                 Jsi_Number num;
-- 
2.43.0


From 0eea65e9aea2ae679654413a10eef3a39020fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:21 +0000
Subject: [PATCH 191/192] fix: an index past the end of a C array in an
 option's name read and wrote outside the array

---
 src/jsiOptions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index f972397..57e3b6e 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -639,6 +639,8 @@ bail:
         if (!subSpec || size<=0 || (isize=subSpec->size)<=0)
             goto bail;
         isize = isize/size;
+        if (ul >= size)
+            return Jsi_LogError("array index out of range: %s", option);
         uchar *s = (((uchar*)rec)+specPtr->offset + isize*ul);
         if (ce[1] != '.' || !subSpec->data) {
             if (Jsi_OptionsSet(interp, subSpec, (void*)s, subSpec->name, valuePtr, flags) != JSI_OK)
@@ -872,6 +874,8 @@ bail:
         if (!subSpec || size<=0 || (isize=subSpec->size)<=0)
             goto bail;
         isize = isize/size;
+        if (ul >= size)
+            return Jsi_LogError("array index out of range: %s", option);
         uchar *s = (((uchar*)rec)+specPtr->offset + isize*ul);
         if (ce[1] != '.' || !subSpec->data) {
             if (Jsi_OptionsGet(interp, subSpec, (void*)s, subSpec->name, valuePtr, flags) != JSI_OK)
-- 
2.43.0


From df58c594b69fa27047219f9f30f3fae62d7bcf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:21 +0000
Subject: [PATCH 192/192] fix: a bitset field of 64 bits lost its names past
 the 31st, and smaller ones were read with the bytes behind them

---
 src/jsiOptions.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 57e3b6e..6833ef2 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1637,9 +1637,9 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
                 if (n >= (int)(spec->size*8)) 
                     rc = Jsi_LogError("list larger than field size: %s", spec->name);
                 if (isnot)
-                    m &= ~(1<<n);
+                    m &= ~(((uint64_t)1)<<n);
                 else
-                    m |= (1<<n);
+                    m |= (((uint64_t)1)<<n);
             }
             Jsi_DSFree(&sStr);
             if (rc != JSI_OK)
@@ -1672,9 +1672,9 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
                 bool vb;
                 Jsi_ValueGetBoolean(interp, optval, &vb);
                 if (!vb)
-                    m &= ~(1<<n);
+                    m &= ~(((uint64_t)1)<<n);
                 else
-                    m |= (1<<n);
+                    m |= (((uint64_t)1)<<n);
             }
             if (tp)
                 Jsi_TreeSearchDone(&search);
@@ -1700,9 +1700,9 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
             if (JSI_OK != Jsi_GetIndex(interp, cp, list, "bitset", fflags, &n))
                 return JSI_ERROR;
             if (isnot)
-                m &= ~(1<<n);
+                m &= ~(((uint64_t)1)<<n);
             else
-                m |= (1<<n);
+                m |= (((uint64_t)1)<<n);
         }
 #endif
     }
@@ -1718,16 +1718,25 @@ store:
 
 static Jsi_RC jsi_BitsetToValue(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Value **outValue, Jsi_DString *outStr, void *record, Jsi_Wide flags)
 {
-    int i, n, cnt = 0, *s = (int*)(((char*)record) + spec->offset);
+    int i, cnt = 0;
+    uint64_t n;
+    char *s = (((char*)record) + spec->offset);
     const char **list = (const char**)spec->data;
     if (!list) 
         return Jsi_LogError("custom enum spec did not set data: %s", spec->name);
+    switch (spec->size) {
+        case 1: n = *(uint8_t*)s; break;
+        case 2: n = *(uint16_t*)s; break;
+        case 4: n = *(uint32_t*)s; break;
+        case 8: n = *(uint64_t*)s; break;
+        default: 
+            return Jsi_LogError("bitset size must be 1, 2, 4, or 8: %s", spec->name);
+    }
     if (outStr) {
-        n = *s;
         for (i=0; list[i]; i++) {
             if (i >= (int)(spec->size*8)) 
                 return Jsi_LogError("list larger than field size: %s", spec->name);
-            if (!(n & (1<<i)))
+            if (!(n & (((uint64_t)1)<<i)))
                 continue;
             if (cnt++)
                 Jsi_DSAppendLen(outStr, ", ", 1);
@@ -1737,10 +1746,9 @@ static Jsi_RC jsi_BitsetToValue(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
     }
 #ifndef JSI_LITE_ONLY
     Jsi_Obj *obj = Jsi_ObjNewType(interp, JSI_OT_ARRAY);
-    n = *s;
-    for (i=0; list[i]; i++) {
+    for (i=0; list[i] && i < (int)(spec->size*8); i++) {
         Jsi_Value *v;
-        if (!(n&(1<<i))) continue;
+        if (!(n&(((uint64_t)1)<<i))) continue;
         cnt++;
         v = Jsi_ValueMakeStringKey(interp, NULL, list[i]);
         Jsi_ObjArrayAdd(interp, obj, v);
-- 
2.43.0


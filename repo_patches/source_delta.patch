From 182e16ff8249d6650c4c183cf941591cbe57aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 01/22] fix: start the world again when writing code fails

---
 internal/monkey/mem/write.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index 5d71863..6191ca9 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -27,6 +27,8 @@ import (
 func WriteWithSTW(target uintptr, data []byte) {
 	ctx := stw.NewSTWCtx()
 	ctx.StopTheWorld()
+	// restart the world even if a write fails and panics
+	defer ctx.StartTheWorld()
 
 	begin := target
 	end := target + uintptr(len(data))
@@ -44,6 +46,4 @@ func WriteWithSTW(target uintptr, data []byte) {
 		tool.Assert(err == nil, err)
 		break
 	}
-
-	ctx.StartTheWorld()
 }
-- 
2.43.0


From 1eec58c2d8ca8120e91e60f4036f54ee38772610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 02/22] fix: refuse to mock a target again before touching it

---
 convey.go   | 11 ++++++++---
 mock.go     |  1 +
 mock_var.go |  1 +
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/convey.go b/convey.go
index 7e7bd3e..4f9ab4c 100644
--- a/convey.go
+++ b/convey.go
@@ -48,12 +48,17 @@ func PatchConvey(items ...interface{}) {
 	convey.Convey(items...)
 }
 
-func addToGlobal(mocker mockerInstance) {
-	tool.DebugPrintf("%v added\n", mocker.key())
+// assertNotMocked refuses a second mock of the same target in the current 'PatchConvey' context. It must be called before
+// the mock takes effect.
+func assertNotMocked(mocker mockerInstance) {
 	last, ok := gMocker[len(gMocker)-1][mocker.key()]
-	if ok {
+	if ok && last != mocker {
 		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
 	}
+}
+
+func addToGlobal(mocker mockerInstance) {
+	tool.DebugPrintf("%v added\n", mocker.key())
 	gMocker[len(gMocker)-1][mocker.key()] = mocker
 }
 
diff --git a/mock.go b/mock.go
index 676f006..1240173 100644
--- a/mock.go
+++ b/mock.go
@@ -327,6 +327,7 @@ func (mocker *Mocker) Patch() *Mocker {
 	if mocker.isPatched {
 		return mocker
 	}
+	assertNotMocked(mocker)
 	mocker.patch = monkey.PatchValue(mocker.target, mocker.hook, reflect.ValueOf(mocker.proxy), mocker.builder.unsafe, mocker.builder.generic)
 	mocker.isPatched = true
 	addToGlobal(mocker)
diff --git a/mock_var.go b/mock_var.go
index 910816c..f79554b 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -73,6 +73,7 @@ func (mocker *MockerVar) Patch() *MockerVar {
 	defer mocker.lock.Unlock()
 
 	if !mocker.isPatched {
+		assertNotMocked(mocker)
 		mocker.target.Set(mocker.hook)
 		mocker.isPatched = true
 		addToGlobal(mocker)
-- 
2.43.0


From 7dfb84862119db8956e4c7e818df862e5dda43d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 03/22] fix: a refused variable mock value no longer replaces
 the accepted one

---
 mock_var.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mock_var.go b/mock_var.go
index f79554b..1bd4197 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -54,16 +54,18 @@ func MockValue(targetPtr interface{}) *MockerVar {
 
 func (mocker *MockerVar) To(value interface{}) *MockerVar {
 	var v reflect.Type
+	var hook reflect.Value
 
 	if value == nil {
-		mocker.hook = reflect.Zero(mocker.targetType)
+		hook = reflect.Zero(mocker.targetType)
 		v = mocker.targetType
 	} else {
-		mocker.hook = reflect.ValueOf(value)
+		hook = reflect.ValueOf(value)
 		v = reflect.TypeOf(value)
 	}
 
 	tool.Assert(v.AssignableTo(mocker.targetType), "value type:%s not match target type:%s", v.Name(), mocker.targetType.Name())
+	mocker.hook = hook
 	mocker.Patch()
 	return mocker
 }
-- 
2.43.0


From 7448bc4d47297057adfc229e0e73859958578e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 04/22] fix: releasing a mock of an enclosing context
 deregisters that mock

---
 convey.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index 4f9ab4c..796881e 100644
--- a/convey.go
+++ b/convey.go
@@ -64,7 +64,12 @@ func addToGlobal(mocker mockerInstance) {
 
 func removeFromGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v removed\n", mocker.key())
-	delete(gMocker[len(gMocker)-1], mocker.key())
+	// the mock may have been applied in an enclosing context
+	for _, scope := range gMocker {
+		if scope[mocker.key()] == mocker {
+			delete(scope, mocker.key())
+		}
+	}
 }
 
 // Unpatch all mocks in current 'PatchConvey' context
-- 
2.43.0


From 44ec30424a596465f0e11f99b3bcad0eacdb7b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 05/22] fix: release the mocks of a context in reverse order,
 all of them

---
 convey.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/convey.go b/convey.go
index 796881e..1ad41c4 100644
--- a/convey.go
+++ b/convey.go
@@ -23,22 +23,21 @@ import (
 	"github.com/smartystreets/goconvey/convey"
 )
 
-var gMocker = make([]map[uintptr]mockerInstance, 0)
+// gMocker holds the mocks in force of each 'PatchConvey' context, in the order they were applied
+var gMocker = make([][]mockerInstance, 0)
 
 func init() {
-	gMocker = append(gMocker, make(map[uintptr]mockerInstance))
+	gMocker = append(gMocker, nil)
 }
 
 func PatchConvey(items ...interface{}) {
 	for i, item := range items {
 		if reflect.TypeOf(item).Kind() == reflect.Func {
 			items[i] = reflect.MakeFunc(reflect.TypeOf(item), func(args []reflect.Value) []reflect.Value {
-				gMocker = append(gMocker, make(map[uintptr]mockerInstance))
+				gMocker = append(gMocker, nil)
 				defer func() {
-					for _, mocker := range gMocker[len(gMocker)-1] {
-						mocker.unPatch()
-					}
-					gMocker = gMocker[:len(gMocker)-1]
+					defer func() { gMocker = gMocker[:len(gMocker)-1] }()
+					unPatchScope(gMocker[len(gMocker)-1])
 				}()
 				return tool.ReflectCall(reflect.ValueOf(item), args)
 			}).Interface()
@@ -51,27 +50,39 @@ func PatchConvey(items ...interface{}) {
 // assertNotMocked refuses a second mock of the same target in the current 'PatchConvey' context. It must be called before
 // the mock takes effect.
 func assertNotMocked(mocker mockerInstance) {
-	last, ok := gMocker[len(gMocker)-1][mocker.key()]
-	if ok && last != mocker {
-		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
+	for _, last := range gMocker[len(gMocker)-1] {
+		if last.key() == mocker.key() && last != mocker {
+			tool.Assert(false, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
+		}
 	}
 }
 
 func addToGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v added\n", mocker.key())
-	gMocker[len(gMocker)-1][mocker.key()] = mocker
+	gMocker[len(gMocker)-1] = append(gMocker[len(gMocker)-1], mocker)
 }
 
 func removeFromGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v removed\n", mocker.key())
 	// the mock may have been applied in an enclosing context
-	for _, scope := range gMocker {
-		if scope[mocker.key()] == mocker {
-			delete(scope, mocker.key())
+	for i, scope := range gMocker {
+		for j := range scope {
+			if scope[j] == mocker {
+				gMocker[i] = append(append([]mockerInstance{}, scope[:j]...), scope[j+1:]...)
+				break
+			}
 		}
 	}
 }
 
+// unPatchScope releases mocks in reverse order of application, so that mocks that overlap (e.g. a struct variable and its
+// field) leave what was there before the first of them. Every mock is released even if releasing another one panics.
+func unPatchScope(scope []mockerInstance) {
+	for _, mocker := range scope {
+		defer mocker.unPatch()
+	}
+}
+
 // Unpatch all mocks in current 'PatchConvey' context
 //
 // If the caller is out of 'PatchConvey', it will unpatch all mocks
@@ -97,7 +108,5 @@ func removeFromGlobal(mocker mockerInstance) {
 //		}
 //	})
 func UnPatchAll() {
-	for _, mocker := range gMocker[len(gMocker)-1] {
-		mocker.unPatch()
-	}
+	unPatchScope(gMocker[len(gMocker)-1])
 }
-- 
2.43.0


From 11865062252c89951a599e15f84709ea42d8b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 06/22] fix: calling origin no longer overwrites the arguments
 of the mocked call

---
 mock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 1240173..246d6e9 100644
--- a/mock.go
+++ b/mock.go
@@ -313,7 +313,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift], innerArgs...))
+				return tool.ReflectCall(proxy.Elem(), append(append([]reflect.Value{}, args[0:shift]...), innerArgs...))
 			}))
 		}
 	}
-- 
2.43.0


From 3229df75e6262a089e59dee088eab11dd52c7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 07/22] fix: calls in progress keep the configuration they
 started with

---
 mock.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mock.go b/mock.go
index 246d6e9..3f0d182 100644
--- a/mock.go
+++ b/mock.go
@@ -236,15 +236,19 @@ func (mocker *Mocker) missReceiver(target reflect.Type, hook interface{}) bool {
 func (mocker *Mocker) buildHook() {
 	proxySetter := mocker.buildProxy()
 
+	// a call in progress keeps to the configuration it has met, even if the mocker is reconfigured meanwhile
+	proxy := reflect.ValueOf(mocker.proxy)
+	filterGoroutine, gId := mocker.builder.filterGoroutine, mocker.builder.gId
+
 	originExec := func(args []reflect.Value) []reflect.Value {
-		return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), args)
+		return tool.ReflectCall(proxy.Elem(), args)
 	}
 
 	match := []func(args []reflect.Value) bool{}
 	exec := []func(args []reflect.Value) []reflect.Value{}
 
 	for i := range mocker.builder.conditions {
-		condition := mocker.builder.conditions[i]
+		condition := *mocker.builder.conditions[i]
 		if condition.when == nil {
 			// when condition is not set, just go into hook exec
 			match = append(match, func(args []reflect.Value) bool { return true })
@@ -269,15 +273,15 @@ func (mocker *Mocker) buildHook() {
 		proxySetter(args) // 设置origin调用proxy
 
 		mocker.access()
-		switch mocker.builder.filterGoroutine {
+		switch filterGoroutine {
 		case Disable:
 			break
 		case Include:
-			if tool.GetGoroutineID() != mocker.builder.gId {
+			if tool.GetGoroutineID() != gId {
 				return originExec(args)
 			}
 		case Exclude:
-			if tool.GetGoroutineID() == mocker.builder.gId {
+			if tool.GetGoroutineID() == gId {
 				return originExec(args)
 			}
 		}
-- 
2.43.0


From 7d495bbf6a3d5680a9be1063b0cbbc6d7e020ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 08/22] fix: a refused reconfiguration leaves the mock as it
 was

---
 mock.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 3f0d182..7b46b1c 100644
--- a/mock.go
+++ b/mock.go
@@ -410,10 +410,21 @@ func (mocker *Mocker) Origin(funcPtr interface{}) *Mocker {
 }
 
 func (mocker *Mocker) rePatch(do func()) *Mocker {
-	mocker.UnPatch()
+	// keep the previous configuration until the new one has proved to be acceptable
+	builder, condition, hook, proxy, done := *mocker.builder, *mocker.builder.conditions[0], mocker.hook, mocker.proxy, false
+	defer func() {
+		if !done {
+			*mocker.builder = builder
+			*mocker.builder.conditions[0] = condition
+			mocker.hook, mocker.proxy = hook, proxy
+		}
+	}()
 	do()
+	assertNotMocked(mocker)
 	mocker.buildHook()
+	mocker.UnPatch()
 	mocker.Patch()
+	done = true
 	return mocker
 }
 
-- 
2.43.0


From 649faa2402495ffc1ba2e99fefeacc628580e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 09/22] fix: origin functions stay callable after the mock is
 released

---
 internal/monkey/fn/inject.go |  7 +++++--
 internal/monkey/patch.go     | 13 ++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/internal/monkey/fn/inject.go b/internal/monkey/fn/inject.go
index 46a78ab..0575ce5 100644
--- a/internal/monkey/fn/inject.go
+++ b/internal/monkey/fn/inject.go
@@ -26,7 +26,8 @@ import (
 )
 
 // InjectInto injects the raw codes into the target to make a new function. The target is the target function pointer.
-func InjectInto(target reflect.Value, fnCode []byte) {
+// The result is where the new function keeps its code address: changing it redirects all copies of the function.
+func InjectInto(target reflect.Value, fnCode []byte) *uintptr {
 	vt := target.Type()
 	tool.Assert(vt.Kind() == reflect.Ptr, "target is not a pointer")
 	tool.Assert(vt.Elem().Kind() == reflect.Func, "target is not a function pointer")
@@ -41,8 +42,10 @@ func InjectInto(target reflect.Value, fnCode []byte) {
 		_      uintptr
 		fnAddr *uintptr
 	}
-	*(*function)(unsafe.Pointer(&carrier)).fnAddr = common.PtrOf(fnCode)
+	fnAddr := (*function)(unsafe.Pointer(&carrier)).fnAddr
+	*fnAddr = common.PtrOf(fnCode)
 
 	// set the target with the new made function
 	target.Elem().Set(carrier)
+	return fnAddr
 }
diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 8f4ee24..5379e16 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -28,14 +28,17 @@ import (
 
 // Patch is a context that holds the address and original codes of the patched function.
 type Patch struct {
-	size int
-	code []byte
-	base uintptr
+	size  int
+	code  []byte
+	base  uintptr
+	proxy *uintptr // code address of the proxy function
 }
 
 // Unpatch restores the patched function to the original function.
 func (p *Patch) Unpatch() {
 	mem.WriteWithSTW(p.base, p.code[:p.size])
+	// the proxy function may still be called (calls in progress, kept origin functions)
+	*p.proxy = p.base
 	common.ReleasePage(p.code)
 }
 
@@ -65,14 +68,14 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	// construct the branch instruction, i.e. jump to the cutting point
 	copy(proxyCode[cuttingIdx:], inst.BranchTo(targetAddr+uintptr(cuttingIdx)))
 	// inject the proxy code to the proxy function
-	fn.InjectInto(proxy, proxyCode)
+	proxyAddr := fn.InjectInto(proxy, proxyCode)
 
 	tool.DebugPrintf("PatchValue: hook code len(%v), cuttingIdx(%v)\n", len(hookCode), cuttingIdx)
 
 	// replace target function codes before the cutting point
 	mem.WriteWithSTW(targetAddr, hookCode)
 
-	return &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx}
+	return &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx, proxy: proxyAddr}
 }
 
 func PatchFunc(fn, hook, proxy interface{}, unsafe bool) *Patch {
-- 
2.43.0


From 7b614d3c5e5d6937c976d0d31254b9b326c2e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 10/22] fix: give back the page of a mock that could not be
 applied

---
 internal/monkey/patch.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 5379e16..14384fe 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -63,17 +63,30 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 
 	// construct the proxy code
 	proxyCode := common.AllocatePage()
+	var proxyAddr *uintptr
+	patched := false
+	defer func() {
+		if patched {
+			return
+		}
+		// something failed: nothing has been replaced, so the page is of no use
+		if proxyAddr != nil {
+			*proxyAddr = targetAddr
+		}
+		common.ReleasePage(proxyCode)
+	}()
 	// save the original code before the cutting point
 	copy(proxyCode, targetCodeBuf[:cuttingIdx])
 	// construct the branch instruction, i.e. jump to the cutting point
 	copy(proxyCode[cuttingIdx:], inst.BranchTo(targetAddr+uintptr(cuttingIdx)))
 	// inject the proxy code to the proxy function
-	proxyAddr := fn.InjectInto(proxy, proxyCode)
+	proxyAddr = fn.InjectInto(proxy, proxyCode)
 
 	tool.DebugPrintf("PatchValue: hook code len(%v), cuttingIdx(%v)\n", len(hookCode), cuttingIdx)
 
 	// replace target function codes before the cutting point
 	mem.WriteWithSTW(targetAddr, hookCode)
+	patched = true
 
 	return &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx, proxy: proxyAddr}
 }
-- 
2.43.0


From b24f1523d12130a48be5a3f4e6d8bac5c109f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 11/22] fix: undo the first part of a code write whose second
 page fails

---
 internal/monkey/mem/write.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index 6191ca9..ae635b3 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -32,6 +32,14 @@ func WriteWithSTW(target uintptr, data []byte) {
 
 	begin := target
 	end := target + uintptr(len(data))
+	origin := append([]byte{}, common.BytesOf(target, len(data))...)
+	done := false
+	defer func() {
+		// never leave the code half written
+		if !done && begin > target {
+			_ = Write(target, origin[:begin-target])
+		}
+	}()
 	for begin < end {
 		if common.PageOf(begin) < common.PageOf(end) {
 			nextPage := common.PageOf(begin) + uintptr(common.PageSize())
@@ -46,4 +54,5 @@ func WriteWithSTW(target uintptr, data []byte) {
 		tool.Assert(err == nil, err)
 		break
 	}
+	done = true
 }
-- 
2.43.0


From 9da32157b1acf272823cf6560c85f120811dac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 12/22] fix: mocks of one function can be released in any order

---
 internal/monkey/patch.go | 49 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 14384fe..68b5692 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -18,6 +18,7 @@ package monkey
 
 import (
 	"reflect"
+	"sync"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
 	"github.com/bytedance/mockey/internal/monkey/fn"
@@ -31,14 +32,47 @@ type Patch struct {
 	size  int
 	code  []byte
 	base  uintptr
-	proxy *uintptr // code address of the proxy function
+	proxy []*uintptr // code addresses of the functions using the code
 }
 
+// patches holds the patches in force of each function, innermost last
+var (
+	patches     = map[uintptr][]*Patch{}
+	patchesLock sync.Mutex
+)
+
 // Unpatch restores the patched function to the original function.
 func (p *Patch) Unpatch() {
-	mem.WriteWithSTW(p.base, p.code[:p.size])
-	// the proxy function may still be called (calls in progress, kept origin functions)
-	*p.proxy = p.base
+	patchesLock.Lock()
+	defer patchesLock.Unlock()
+
+	chain := patches[p.base]
+	for i := range chain {
+		if chain[i] != p {
+			continue
+		}
+		if i == len(chain)-1 {
+			mem.WriteWithSTW(p.base, p.code[:p.size])
+			// the proxy function may still be called (calls in progress, kept origin functions)
+			for _, addr := range p.proxy {
+				*addr = p.base
+			}
+		} else {
+			// another patch lies on top of this one and will restore what this one has saved
+			next := chain[i+1]
+			next.size, p.size = p.size, next.size
+			next.code, p.code = p.code, next.code
+			next.proxy = append(next.proxy, p.proxy...)
+			for _, addr := range next.proxy {
+				*addr = common.PtrOf(next.code)
+			}
+		}
+		patches[p.base] = append(append([]*Patch{}, chain[:i]...), chain[i+1:]...)
+		if len(chain) == 1 {
+			delete(patches, p.base)
+		}
+		break
+	}
 	common.ReleasePage(p.code)
 }
 
@@ -48,6 +82,9 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	tool.Assert(hook.Kind() == reflect.Func, "'%s' is not a function", hook.Kind())
 	tool.Assert(proxy.Kind() == reflect.Ptr, "'%v' is not a function pointer", proxy.Kind())
 
+	patchesLock.Lock()
+	defer patchesLock.Unlock()
+
 	targetAddr := target.Pointer()
 	if generic {
 		// we assume that generic call/bl op is located in first 200 bytes of codes from targetAddr
@@ -88,7 +125,9 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	mem.WriteWithSTW(targetAddr, hookCode)
 	patched = true
 
-	return &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx, proxy: proxyAddr}
+	patch := &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx, proxy: []*uintptr{proxyAddr}}
+	patches[targetAddr] = append(patches[targetAddr], patch)
+	return patch
 }
 
 func PatchFunc(fn, hook, proxy interface{}, unsafe bool) *Patch {
-- 
2.43.0


From 6fdde1b6558dc2c4ebb0c9ceab9870e3ec932092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:23 +0000
Subject: [PATCH 13/22] fix: origin functions without receiver use that of the
 call they are used in

---
 mock.go | 71 +++++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 61 insertions(+), 10 deletions(-)

diff --git a/mock.go b/mock.go
index 7b46b1c..980ce2f 100644
--- a/mock.go
+++ b/mock.go
@@ -55,6 +55,45 @@ type MockBuilder struct {
 	gId             int64
 	unsafe          bool
 	generic         bool
+	calls           callArgs // arguments of calls in progress
+}
+
+// callArgs keeps the arguments of the calls in progress on each goroutine, which origin functions need when their type
+// omits the receiver or the generic information.
+type callArgs struct {
+	lock  sync.Mutex
+	stack map[int64][][]reflect.Value
+	last  []reflect.Value
+}
+
+func (c *callArgs) enter(args []reflect.Value) (leave func()) {
+	gId := tool.GetGoroutineID()
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if c.stack == nil {
+		c.stack = map[int64][][]reflect.Value{}
+	}
+	c.stack[gId] = append(c.stack[gId], args)
+	c.last = args
+	return func() {
+		c.lock.Lock()
+		defer c.lock.Unlock()
+		if n := len(c.stack[gId]); n > 1 {
+			c.stack[gId] = c.stack[gId][:n-1]
+		} else {
+			delete(c.stack, gId)
+		}
+	}
+}
+
+// current returns the arguments of the innermost call in progress on this goroutine, or else of the latest call.
+func (c *callArgs) current() []reflect.Value {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if stack := c.stack[tool.GetGoroutineID()]; len(stack) > 0 {
+		return stack[len(stack)-1]
+	}
+	return c.last
 }
 
 // Mock mocks target function
@@ -270,7 +309,7 @@ func (mocker *Mocker) buildHook() {
 	}
 
 	mockerHook := reflect.MakeFunc(mocker.builder.hookType(), func(args []reflect.Value) []reflect.Value {
-		proxySetter(args) // 设置origin调用proxy
+		defer proxySetter(args)() // 设置origin调用proxy
 
 		mocker.access()
 		switch filterGoroutine {
@@ -299,10 +338,11 @@ func (mocker *Mocker) buildHook() {
 }
 
 // buildProx create a proxyCaller which could call origin directly
-func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
+func (mocker *Mocker) buildProxy() func(args []reflect.Value) (leave func()) {
 	proxy := reflect.New(mocker.builder.hookType())
 
-	proxyCallerSetter := func(args []reflect.Value) {}
+	nop := func() {}
+	proxyCallerSetter := func(args []reflect.Value) func() { return nop }
 	if mocker.builder.proxyCaller != nil {
 		pVal := reflect.ValueOf(mocker.builder.proxyCaller)
 		tool.Assert(pVal.Kind() == reflect.Ptr && pVal.Elem().Kind() == reflect.Func, "origin receiver must be a function pointer")
@@ -315,10 +355,20 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		if mocker.missReceiver(mocker.target.Type(), pElem.Interface()) {
 			shift += 1
 		}
-		proxyCallerSetter = func(args []reflect.Value) {
-			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(append([]reflect.Value{}, args[0:shift]...), innerArgs...))
-			}))
+		calls := &mocker.builder.calls
+		origin := reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
+			args := []reflect.Value{}
+			if shift > 0 {
+				args = append(args, calls.current()[0:shift]...)
+			}
+			return tool.ReflectCall(proxy.Elem(), append(args, innerArgs...))
+		})
+		proxyCallerSetter = func(args []reflect.Value) func() {
+			pElem.Set(origin)
+			if shift == 0 {
+				return nop
+			}
+			return calls.enter(args)
 		}
 	}
 	mocker.proxy = proxy.Interface()
@@ -411,11 +461,12 @@ func (mocker *Mocker) Origin(funcPtr interface{}) *Mocker {
 
 func (mocker *Mocker) rePatch(do func()) *Mocker {
 	// keep the previous configuration until the new one has proved to be acceptable
-	builder, condition, hook, proxy, done := *mocker.builder, *mocker.builder.conditions[0], mocker.hook, mocker.proxy, false
+	builder, condition, hook, proxy, done := mocker.builder, *mocker.builder.conditions[0], mocker.hook, mocker.proxy, false
+	proxyCaller, filterGoroutine, gId := builder.proxyCaller, builder.filterGoroutine, builder.gId
 	defer func() {
 		if !done {
-			*mocker.builder = builder
-			*mocker.builder.conditions[0] = condition
+			builder.proxyCaller, builder.filterGoroutine, builder.gId = proxyCaller, filterGoroutine, gId
+			*builder.conditions[0] = condition
 			mocker.hook, mocker.proxy = hook, proxy
 		}
 	}()
-- 
2.43.0


From 35e5dadf4acadfccea8e533e3d00d405fbd7293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 14/22] fix: hooks of generic methods get the receiver and the
 generic info in their places

Since go1.20 methods of generic types get the dictionary after the receiver,
not before it.
---
 mock.go                     | 18 +++++++++++++-----
 mock_condition.go           |  5 +++--
 mock_generics.go            | 14 ++++++++++++++
 mock_generics_above_1_20.go | 23 +++++++++++++++++++++++
 mock_generics_below_1_20.go | 23 +++++++++++++++++++++++
 5 files changed, 76 insertions(+), 7 deletions(-)
 create mode 100644 mock_generics_above_1_20.go
 create mode 100644 mock_generics_below_1_20.go

diff --git a/mock.go b/mock.go
index 980ce2f..bc6f82d 100644
--- a/mock.go
+++ b/mock.go
@@ -55,6 +55,7 @@ type MockBuilder struct {
 	gId             int64
 	unsafe          bool
 	generic         bool
+	genericIdx      int      // position of the generic information among the arguments of the target's code
 	calls           callArgs // arguments of calls in progress
 }
 
@@ -112,6 +113,9 @@ func Mock(target interface{}, opt ...optionFn) *MockBuilder {
 		unsafe:  option.unsafe,
 		generic: option.generic,
 	}
+	if option.generic {
+		builder.genericIdx = genericInfoIndex(target)
+	}
 	builder.resetCondition()
 	return builder
 }
@@ -125,10 +129,12 @@ func MockUnsafe(target interface{}) *MockBuilder {
 func (builder *MockBuilder) hookType() reflect.Type {
 	targetType := reflect.TypeOf(builder.target)
 	if builder.generic {
-		targetIn := []reflect.Type{genericInfoType}
+		targetIn := []reflect.Type{}
 		for i := 0; i < targetType.NumIn(); i++ {
 			targetIn = append(targetIn, targetType.In(i))
 		}
+		index := builder.genericIdx
+		targetIn = append(targetIn[:index], append([]reflect.Type{genericInfoType}, targetIn[index:]...)...)
 		targetOut := []reflect.Type{}
 		for i := 0; i < targetType.NumOut(); i++ {
 			targetOut = append(targetOut, targetType.Out(i))
@@ -348,20 +354,22 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) (leave func()) {
 		tool.Assert(pVal.Kind() == reflect.Ptr && pVal.Elem().Kind() == reflect.Func, "origin receiver must be a function pointer")
 		pElem := pVal.Elem()
 
-		shift := 0
+		shift, kept := 0, 0
 		if mocker.builder.generic {
 			shift += 1
+			kept = mocker.builder.genericIdx
 		}
 		if mocker.missReceiver(mocker.target.Type(), pElem.Interface()) {
 			shift += 1
+			kept = 0
 		}
 		calls := &mocker.builder.calls
 		origin := reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-			args := []reflect.Value{}
+			args := append([]reflect.Value{}, innerArgs[:kept]...)
 			if shift > 0 {
-				args = append(args, calls.current()[0:shift]...)
+				args = append(args, calls.current()[kept:kept+shift]...)
 			}
-			return tool.ReflectCall(proxy.Elem(), append(args, innerArgs...))
+			return tool.ReflectCall(proxy.Elem(), append(args, innerArgs[kept:]...))
 		})
 		proxyCallerSetter = func(args []reflect.Value) func() {
 			pElem.Set(origin)
diff --git a/mock_condition.go b/mock_condition.go
index 4105790..48933dd 100644
--- a/mock_condition.go
+++ b/mock_condition.go
@@ -142,10 +142,11 @@ func (m *mockCondition) checkGenericAndReceiver(typ reflect.Type) (bool, bool) {
 func (m *mockCondition) adaptArgsForReflectCall(args []reflect.Value, hasGeneric, hasReceiver bool) []reflect.Value {
 	adaption := []reflect.Value{}
 	if m.builder.generic {
+		index := m.builder.genericIdx
 		if hasGeneric {
-			adaption = append(adaption, args[0])
+			adaption = append(adaption, args[index])
 		}
-		args = args[1:]
+		args = append(append([]reflect.Value{}, args[:index]...), args[index+1:]...)
 	}
 	if !hasReceiver {
 		args = args[1:]
diff --git a/mock_generics.go b/mock_generics.go
index e0c9a21..94f4c6e 100644
--- a/mock_generics.go
+++ b/mock_generics.go
@@ -18,7 +18,11 @@ package mockey
 
 import (
 	"reflect"
+	"runtime"
+	"strings"
 	"unsafe"
+
+	"github.com/bytedance/mockey/internal/monkey/inst"
 )
 
 // MockGeneric mocks generic function
@@ -28,6 +32,16 @@ func MockGeneric(target interface{}) *MockBuilder {
 	return Mock(target, OptGeneric)
 }
 
+// genericInfoIndex returns the position of the generic information among the arguments of the target's code: since
+// go1.20 methods (like "pkg.(*Type[...]).Name") get it after the receiver, everything else gets it first.
+func genericInfoIndex(target interface{}) int {
+	impl := inst.GetGenericJumpAddr(reflect.ValueOf(target).Pointer(), 10000)
+	if f := runtime.FuncForPC(impl); genericInfoAfterReceiver && f != nil && !strings.HasSuffix(f.Name(), "]") {
+		return 1
+	}
+	return 0
+}
+
 type GenericInfo uintptr
 
 var genericInfoType = reflect.TypeOf(GenericInfo(0))
diff --git a/mock_generics_above_1_20.go b/mock_generics_above_1_20.go
new file mode 100644
index 0000000..2d03cb5
--- /dev/null
+++ b/mock_generics_above_1_20.go
@@ -0,0 +1,23 @@
+//go:build go1.20
+// +build go1.20
+
+/*
+ * Copyright 2023 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package mockey
+
+// genericInfoAfterReceiver tells whether methods of generic types get the generic information after the receiver
+const genericInfoAfterReceiver = true
diff --git a/mock_generics_below_1_20.go b/mock_generics_below_1_20.go
new file mode 100644
index 0000000..65d967e
--- /dev/null
+++ b/mock_generics_below_1_20.go
@@ -0,0 +1,23 @@
+//go:build !go1.20
+// +build !go1.20
+
+/*
+ * Copyright 2023 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package mockey
+
+// genericInfoAfterReceiver tells whether methods of generic types get the generic information after the receiver
+const genericInfoAfterReceiver = false
-- 
2.43.0


From 8b4918574109bf05f27f2dc475ca8adf62a8f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:25 +0000
Subject: [PATCH 15/22] fix: keep the code to be written alive until it is
 written

---
 internal/monkey/mem/write_darwin.go | 3 +++
 internal/monkey/mem/write_linux.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/monkey/mem/write_darwin.go b/internal/monkey/mem/write_darwin.go
index 529a300..f735087 100644
--- a/internal/monkey/mem/write_darwin.go
+++ b/internal/monkey/mem/write_darwin.go
@@ -19,6 +19,7 @@ package mem
 import (
 	"fmt"
 	"reflect"
+	"runtime"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
@@ -30,6 +31,8 @@ func Write(target uintptr, data []byte) error {
 	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
 	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
+	// write only got the address of data, which does not keep it from being collected
+	runtime.KeepAlive(data)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
diff --git a/internal/monkey/mem/write_linux.go b/internal/monkey/mem/write_linux.go
index cab438c..9c3f743 100644
--- a/internal/monkey/mem/write_linux.go
+++ b/internal/monkey/mem/write_linux.go
@@ -19,6 +19,7 @@ package mem
 import (
 	"fmt"
 	"reflect"
+	"runtime"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
@@ -30,6 +31,8 @@ func Write(target uintptr, data []byte) error {
 	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
 	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
+	// write only got the address of data, which does not keep it from being collected
+	runtime.KeepAlive(data)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-- 
2.43.0


From 927460eb8160d32bc2bd8b2b4a4978f2d871183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:25 +0000
Subject: [PATCH 16/22] fix: check the stack for the proxy function, the copied
 check jumped into the void

The stack check of a function branches relatively, so its copy in the proxy page
ended up in zeros whenever it failed: when the goroutine is to be preempted or
the stack has to grow. Check for space only, branch to the original code, and
reserve the space beforehand since the original code starts the hook again.
---
 internal/monkey/inst/disasm_amd64.go | 51 ++++++++++++++++++++++++++++
 internal/monkey/inst/disasm_arm64.go |  5 +++
 internal/monkey/patch.go             | 40 +++++++++++++++++++---
 internal/tool/stack.go               | 32 +++++++++++++++++
 mock.go                              |  4 +++
 5 files changed, 128 insertions(+), 4 deletions(-)
 create mode 100644 internal/tool/stack.go

diff --git a/internal/monkey/inst/disasm_amd64.go b/internal/monkey/inst/disasm_amd64.go
index 29201ec..92732cf 100644
--- a/internal/monkey/inst/disasm_amd64.go
+++ b/internal/monkey/inst/disasm_amd64.go
@@ -68,6 +68,57 @@ func Disassemble(code []byte, required int, checkLen bool) int {
 	return pos
 }
 
+// StackCheck recognizes the stack check that most functions begin with:
+//
+//	CMPQ SP, 16(R14); JBE morestack                                      (small frame)
+//	LEAQ -x(SP), R12; CMPQ R12, 16(R14); JBE morestack                   (medium frame)
+//	MOVQ SP, R12; SUBQ x, R12; JCS m; CMPQ R12, 16(R14); JBE morestack   (huge frame)
+//
+// The check can't be copied elsewhere, its branches are relative. Besides, it also fails in order to preempt the goroutine
+// and then starts the function all over again, i.e. with the hook if the function has been patched. So an equivalent check
+// of nothing but the space on the stack is returned, along with the length of the original one and the size of the frame.
+func StackCheck(code []byte) (check []byte, length, frame int) {
+	const small = 128 // the largest frame that is checked as if it were empty
+	reg := x86asm.RSP
+	frame = small
+	for i := 0; i < 5; i++ {
+		inst, err := x86asm.Decode(code[length:], 64)
+		if err != nil {
+			return nil, 0, 0
+		}
+		length += inst.Len
+		mem, _ := inst.Args[1].(x86asm.Mem)
+		rel, _ := inst.Args[0].(x86asm.Rel)
+		switch {
+		case i == 0 && inst.Op == x86asm.LEA && inst.Args[0] == x86asm.R12 && mem.Base == x86asm.RSP && mem.Index == 0:
+			frame, reg = small-int(int32(mem.Disp)), x86asm.R12
+		case i == 0 && inst.Op == x86asm.MOV && inst.Args[0] == x86asm.R12 && inst.Args[1] == x86asm.RSP:
+			reg = x86asm.R12
+		case i == 1 && inst.Op == x86asm.SUB && inst.Args[0] == x86asm.R12:
+			imm, _ := inst.Args[1].(x86asm.Imm)
+			frame = small + int(imm)
+		case i == 2 && inst.Op == x86asm.JB:
+		case inst.Op == x86asm.CMP && inst.Args[0] == reg && mem.Base == x86asm.R14 && mem.Disp == 16:
+		case i > 0 && inst.Op == x86asm.JBE:
+			check = append(check, 0x4c, 0x8d, 0xa4, 0x24) // LEAQ -(frame+stackReserve)(SP), R12
+			check = append(check, make([]byte, 4)...)
+			*(*int32)(unsafe.Pointer(&check[4])) = -int32(frame + stackReserve)
+			check = append(check, 0x4d, 0x3b, 0x26)                   // CMPQ R12, (R14), i.e. the bound of the stack
+			check = append(check, 0x77, 0x0e)                         // JHI to the end of the check
+			check = append(check, 0xff, 0x25, 0x00, 0x00, 0x00, 0x00) // JMP to the address that follows, let the stack grow
+			check = append(check, make([]byte, 8)...)
+			*(*uintptr)(unsafe.Pointer(&check[len(check)-8])) = common.PtrOf(code) + uintptr(length) + uintptr(rel)
+			return check, length, frame
+		default:
+			return nil, 0, 0
+		}
+	}
+	return nil, 0, 0
+}
+
+// stackReserve is more than the part of the stack that the functions without a check rely on
+const stackReserve = 4096 + 2048
+
 func GetGenericJumpAddr(addr uintptr, maxScan uint64) uintptr {
 	code := common.BytesOf(addr, int(maxScan))
 	var pos uint64
diff --git a/internal/monkey/inst/disasm_arm64.go b/internal/monkey/inst/disasm_arm64.go
index 3c66efc..64034d5 100644
--- a/internal/monkey/inst/disasm_arm64.go
+++ b/internal/monkey/inst/disasm_arm64.go
@@ -57,6 +57,11 @@ func Disassemble(code []byte, required int, checkLen bool) int {
 	return required
 }
 
+// StackCheck is not supported yet
+func StackCheck(code []byte) (check []byte, length, frame int) {
+	return nil, 0, 0
+}
+
 func GetGenericJumpAddr(addr uintptr, maxScan uint64) uintptr {
 	code := common.BytesOf(addr, int(maxScan))
 	var pos uint64
diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 68b5692..b557411 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -41,6 +41,11 @@ var (
 	patchesLock sync.Mutex
 )
 
+// entry is where the proxy function begins, right after the original code
+func (p *Patch) entry() uintptr {
+	return common.PtrOf(p.code) + uintptr(p.size)
+}
+
 // Unpatch restores the patched function to the original function.
 func (p *Patch) Unpatch() {
 	patchesLock.Lock()
@@ -64,7 +69,7 @@ func (p *Patch) Unpatch() {
 			next.code, p.code = p.code, next.code
 			next.proxy = append(next.proxy, p.proxy...)
 			for _, addr := range next.proxy {
-				*addr = common.PtrOf(next.code)
+				*addr = next.entry()
 			}
 		}
 		patches[p.base] = append(append([]*Patch{}, chain[:i]...), chain[i+1:]...)
@@ -113,11 +118,19 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 		common.ReleasePage(proxyCode)
 	}()
 	// save the original code before the cutting point
-	copy(proxyCode, targetCodeBuf[:cuttingIdx])
-	// construct the branch instruction, i.e. jump to the cutting point
-	copy(proxyCode[cuttingIdx:], inst.BranchTo(targetAddr+uintptr(cuttingIdx)))
+	entryIdx := copy(proxyCode, targetCodeBuf[:cuttingIdx])
+	// the proxy function starts with the same code, except for the stack check
+	proxyBuf, nextIdx, _ := inst.StackCheck(targetCodeBuf)
+	if nextIdx < cuttingIdx {
+		proxyBuf = append(proxyBuf, targetCodeBuf[nextIdx:cuttingIdx]...)
+		nextIdx = cuttingIdx
+	}
+	// construct the branch instruction, i.e. jump to the code that follows
+	proxyBuf = append(proxyBuf, inst.BranchTo(targetAddr+uintptr(nextIdx))...)
+	copy(proxyCode[entryIdx:], proxyBuf)
 	// inject the proxy code to the proxy function
 	proxyAddr = fn.InjectInto(proxy, proxyCode)
+	*proxyAddr += uintptr(entryIdx)
 
 	tool.DebugPrintf("PatchValue: hook code len(%v), cuttingIdx(%v)\n", len(hookCode), cuttingIdx)
 
@@ -130,6 +143,25 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	return patch
 }
 
+// FrameSize tells how much space a function needs on the stack, for its proxy function to be called. Target is the value
+// of a function.
+func FrameSize(target reflect.Value, generic bool) int {
+	patchesLock.Lock()
+	defer patchesLock.Unlock()
+
+	targetAddr := target.Pointer()
+	if generic {
+		targetAddr = inst.GetGenericJumpAddr(targetAddr, 10000)
+	}
+	code := common.BytesOf(targetAddr, 64)
+	if chain := patches[targetAddr]; len(chain) > 0 {
+		// the original code has been saved by the first patch
+		code = append(append([]byte{}, chain[0].code[:chain[0].size]...), code[chain[0].size:]...)
+	}
+	_, _, frame := inst.StackCheck(code)
+	return frame
+}
+
 func PatchFunc(fn, hook, proxy interface{}, unsafe bool) *Patch {
 	vv := reflect.ValueOf(fn)
 	tool.Assert(vv.Kind() == reflect.Func, "'%v' is not a function", fn)
diff --git a/internal/tool/stack.go b/internal/tool/stack.go
new file mode 100644
index 0000000..5a917f2
--- /dev/null
+++ b/internal/tool/stack.go
@@ -0,0 +1,32 @@
+/*
+ * Copyright 2022 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package tool
+
+// ReserveStack grows the stack, unless it is large enough, for a proxy function with a frame of this size to be called.
+func ReserveStack(frame int) {
+	reserveStack(frame + 16<<10)
+}
+
+//go:noinline
+func reserveStack(size int) byte {
+	var buf [4 << 10]byte
+	buf[uint(size)%uint(len(buf))] = 1 // or else it may be optimized away
+	if size > len(buf) {
+		return buf[0] + reserveStack(size-len(buf))
+	}
+	return buf[0]
+}
diff --git a/mock.go b/mock.go
index bc6f82d..a3e44bd 100644
--- a/mock.go
+++ b/mock.go
@@ -285,7 +285,9 @@ func (mocker *Mocker) buildHook() {
 	proxy := reflect.ValueOf(mocker.proxy)
 	filterGoroutine, gId := mocker.builder.filterGoroutine, mocker.builder.gId
 
+	frame := monkey.FrameSize(mocker.target, mocker.builder.generic)
 	originExec := func(args []reflect.Value) []reflect.Value {
+		tool.ReserveStack(frame)
 		return tool.ReflectCall(proxy.Elem(), args)
 	}
 
@@ -364,11 +366,13 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) (leave func()) {
 			kept = 0
 		}
 		calls := &mocker.builder.calls
+		frame := monkey.FrameSize(mocker.target, mocker.builder.generic)
 		origin := reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
 			args := append([]reflect.Value{}, innerArgs[:kept]...)
 			if shift > 0 {
 				args = append(args, calls.current()[kept:kept+shift]...)
 			}
+			tool.ReserveStack(frame)
 			return tool.ReflectCall(proxy.Elem(), append(args, innerArgs[kept:]...))
 		})
 		proxyCallerSetter = func(args []reflect.Value) func() {
-- 
2.43.0


From 58bf2683a9700d4e385d05dad3e0500d015d5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:56 +0000
Subject: [PATCH 17/22] fix: pass variadic arguments on as they are

Spreading the slice handed a copy of it to the hook or to the original function,
and an empty slice instead of nil.
---
 internal/tool/call.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/internal/tool/call.go b/internal/tool/call.go
index 40dd333..e6aca67 100644
--- a/internal/tool/call.go
+++ b/internal/tool/call.go
@@ -22,16 +22,7 @@ import (
 
 func ReflectCall(f reflect.Value, args []reflect.Value) []reflect.Value {
 	if f.Type().IsVariadic() {
-		newArgs := make([]reflect.Value, 0)
-		lastArg := args[len(args)-1]
-		for i := 0; i < len(args)-1; i++ {
-			newArgs = append(newArgs, args[i])
-		}
-
-		for i := 0; i < lastArg.Len(); i++ {
-			newArgs = append(newArgs, lastArg.Index(i))
-		}
-		return f.Call(newArgs)
+		return f.CallSlice(args)
 	} else {
 		return f.Call(args)
 	}
-- 
2.43.0


From a934f9d8e74264f9d91c38e2e6816c1b2b0068c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:46 +0000
Subject: [PATCH 18/22] fix: reserve enough of the stack that it may be shrunk
 before the original function starts

---
 internal/tool/stack.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/tool/stack.go b/internal/tool/stack.go
index 5a917f2..bc0cfd4 100644
--- a/internal/tool/stack.go
+++ b/internal/tool/stack.go
@@ -16,17 +16,20 @@
 
 package tool
 
-// ReserveStack grows the stack, unless it is large enough, for a proxy function with a frame of this size to be called.
+// ReserveStack grows the stack, unless it is large enough, for a proxy function with a frame of this size to be called. A
+// quarter of the space is sure to be left if the stack is shrunk meanwhile, which happens when most of it is unused.
 func ReserveStack(frame int) {
-	reserveStack(frame + 16<<10)
+	const overhead = 12 << 10 // of the reflect call
+	reserveStack(4 * (frame + overhead))
 }
 
 //go:noinline
 func reserveStack(size int) byte {
-	var buf [4 << 10]byte
-	buf[uint(size)%uint(len(buf))] = 1 // or else it may be optimized away
-	if size > len(buf) {
-		return buf[0] + reserveStack(size-len(buf))
+	const step = 64 << 10
+	if size <= step {
+		return 0 // the stack has grown at the beginning
 	}
-	return buf[0]
+	var space [step]byte
+	space[uint(size)%step] = 1 // or else it may be optimized away
+	return space[0] + reserveStack(size-step)
 }
-- 
2.43.0


From 0282587bfb182f199a85086fe6172d29444d515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:40 +0000
Subject: [PATCH 19/22] fix: set the entry of the proxy function before the
 calls can use it

---
 internal/monkey/fn/copy_darwin.go | 2 +-
 internal/monkey/fn/inject.go      | 7 ++++---
 internal/monkey/patch.go          | 3 +--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/monkey/fn/copy_darwin.go b/internal/monkey/fn/copy_darwin.go
index 2157164..9163afa 100644
--- a/internal/monkey/fn/copy_darwin.go
+++ b/internal/monkey/fn/copy_darwin.go
@@ -42,6 +42,6 @@ func Copy(targetPtr, oriFn interface{}) {
 	// copy ori fn code to target code
 	copyCode(targetCode, oriCode)
 	// inject target code into the target function
-	InjectInto(targetVal, targetCode)
+	InjectInto(targetVal, targetCode, 0)
 	tool.DebugPrintf("Copy: copy end for %v\n", runtime.FuncForPC(oriAddr).Name())
 }
diff --git a/internal/monkey/fn/inject.go b/internal/monkey/fn/inject.go
index 0575ce5..06c10e7 100644
--- a/internal/monkey/fn/inject.go
+++ b/internal/monkey/fn/inject.go
@@ -25,9 +25,10 @@ import (
 	"github.com/bytedance/mockey/internal/tool"
 )
 
-// InjectInto injects the raw codes into the target to make a new function. The target is the target function pointer.
+// InjectInto injects the raw codes into the target to make a new function. The target is the target function pointer. The
+// entry is where in the codes the new function begins.
 // The result is where the new function keeps its code address: changing it redirects all copies of the function.
-func InjectInto(target reflect.Value, fnCode []byte) *uintptr {
+func InjectInto(target reflect.Value, fnCode []byte, entry int) *uintptr {
 	vt := target.Type()
 	tool.Assert(vt.Kind() == reflect.Ptr, "target is not a pointer")
 	tool.Assert(vt.Elem().Kind() == reflect.Func, "target is not a function pointer")
@@ -43,7 +44,7 @@ func InjectInto(target reflect.Value, fnCode []byte) *uintptr {
 		fnAddr *uintptr
 	}
 	fnAddr := (*function)(unsafe.Pointer(&carrier)).fnAddr
-	*fnAddr = common.PtrOf(fnCode)
+	*fnAddr = common.PtrOf(fnCode) + uintptr(entry)
 
 	// set the target with the new made function
 	target.Elem().Set(carrier)
diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index b557411..1561af2 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -129,8 +129,7 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	proxyBuf = append(proxyBuf, inst.BranchTo(targetAddr+uintptr(nextIdx))...)
 	copy(proxyCode[entryIdx:], proxyBuf)
 	// inject the proxy code to the proxy function
-	proxyAddr = fn.InjectInto(proxy, proxyCode)
-	*proxyAddr += uintptr(entryIdx)
+	proxyAddr = fn.InjectInto(proxy, proxyCode, entryIdx)
 
 	tool.DebugPrintf("PatchValue: hook code len(%v), cuttingIdx(%v)\n", len(hookCode), cuttingIdx)
 
-- 
2.43.0


From bccbd0db2f1b06ac995eb046001d9faa7ca83c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:21 +0000
Subject: [PATCH 20/22] fix: keep the stack large enough for the original
 function however often it is shrunk

The stack reserved before the original function is called could be shrunk by
a second collection before the proxy function checks it, so that the call
started again, hooks and all. Use enough of the stack that it cannot be.
---
 internal/tool/stack.go | 29 +++++++++++++++++++++++++----
 mock.go                |  6 ++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/internal/tool/stack.go b/internal/tool/stack.go
index bc0cfd4..71700c3 100644
--- a/internal/tool/stack.go
+++ b/internal/tool/stack.go
@@ -16,13 +16,34 @@
 
 package tool
 
-// ReserveStack grows the stack, unless it is large enough, for a proxy function with a frame of this size to be called. A
-// quarter of the space is sure to be left if the stack is shrunk meanwhile, which happens when most of it is unused.
-func ReserveStack(frame int) {
+import (
+	"reflect"
+)
+
+// ReflectCallProxy calls a proxy function, with enough space left on the stack for its frame of this size. The caller's
+// own part of the stack is as large: the stack is only shrunk (by half) when less than a quarter of it is used, so that
+// even then this much is left.
+func ReflectCallProxy(f reflect.Value, args []reflect.Value, frame int) []reflect.Value {
 	const overhead = 12 << 10 // of the reflect call
-	reserveStack(4 * (frame + overhead))
+	return reflectCallProxy(f, args, frame+overhead, frame+overhead)
+}
+
+//go:noinline
+func reflectCallProxy(f reflect.Value, args []reflect.Value, used, left int) (results []reflect.Value) {
+	const step = 12<<10 + 256
+	var space [step]byte
+	space[uint(used)%step] = 1 // or else it may be optimized away
+	if used <= step {
+		reserveStack(left)
+		results = ReflectCall(f, args)
+	} else {
+		results = reflectCallProxy(f, args, used-step, left)
+	}
+	return results[:len(results)+int(space[uint(used+1)%step])]
 }
 
+// reserveStack grows the stack, unless it is large enough.
+//
 //go:noinline
 func reserveStack(size int) byte {
 	const step = 64 << 10
diff --git a/mock.go b/mock.go
index a3e44bd..36eee7a 100644
--- a/mock.go
+++ b/mock.go
@@ -287,8 +287,7 @@ func (mocker *Mocker) buildHook() {
 
 	frame := monkey.FrameSize(mocker.target, mocker.builder.generic)
 	originExec := func(args []reflect.Value) []reflect.Value {
-		tool.ReserveStack(frame)
-		return tool.ReflectCall(proxy.Elem(), args)
+		return tool.ReflectCallProxy(proxy.Elem(), args, frame)
 	}
 
 	match := []func(args []reflect.Value) bool{}
@@ -372,8 +371,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) (leave func()) {
 			if shift > 0 {
 				args = append(args, calls.current()[kept:kept+shift]...)
 			}
-			tool.ReserveStack(frame)
-			return tool.ReflectCall(proxy.Elem(), append(args, innerArgs[kept:]...))
+			return tool.ReflectCallProxy(proxy.Elem(), append(args, innerArgs[kept:]...), frame)
 		})
 		proxyCallerSetter = func(args []reflect.Value) func() {
 			pElem.Set(origin)
-- 
2.43.0


From 09e3064c454fdb53b1ffaa1e6a61b93db66e287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:59 +0000
Subject: [PATCH 21/22] fix: refuse predicates with generic information for
 non-generic functions

---
 mock_condition.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_condition.go b/mock_condition.go
index 48933dd..a91b2b0 100644
--- a/mock_condition.go
+++ b/mock_condition.go
@@ -51,6 +51,7 @@ func (m *mockCondition) SetWhenForce(when interface{}) {
 	}
 
 	hasGeneric, hasReceiver := m.checkGenericAndReceiver(wVal.Type())
+	tool.Assert(m.builder.generic || !hasGeneric, "non-generic function should not have 'GenericInfo' as first argument")
 	whenType := reflect.FuncOf(inTypes, []reflect.Type{out1}, hookType.IsVariadic())
 	m.when = reflect.MakeFunc(whenType, func(args []reflect.Value) (results []reflect.Value) {
 		results = tool.ReflectCall(wVal, m.adaptArgsForReflectCall(args, hasGeneric, hasReceiver))
-- 
2.43.0


From 08bcf81b3a370de5d6b652069346834ea5d27cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:23 +0000
Subject: [PATCH 22/22] fix: let calls in progress use the proxy of a
 reconfigured mock

---
 mock.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 36eee7a..407b209 100644
--- a/mock.go
+++ b/mock.go
@@ -346,7 +346,11 @@ func (mocker *Mocker) buildHook() {
 
 // buildProx create a proxyCaller which could call origin directly
 func (mocker *Mocker) buildProxy() func(args []reflect.Value) (leave func()) {
-	proxy := reflect.New(mocker.builder.hookType())
+	// a reconfigured mocker keeps its proxy: calls in progress may still use (and hand out) the previous origin function
+	proxy := reflect.ValueOf(mocker.proxy)
+	if !proxy.IsValid() {
+		proxy = reflect.New(mocker.builder.hookType())
+	}
 
 	nop := func() {}
 	proxyCallerSetter := func(args []reflect.Value) func() { return nop }
-- 
2.43.0


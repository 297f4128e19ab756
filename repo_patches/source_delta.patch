From d70869b791943c75223a8608594c5c4508b2c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 01/23] fix: bind type parameters per instantiation

Arguments for the parent type and values of own parameters were kept in the same
field, so that instantiating a type overwrote the arguments resolved for it. A type
derived from a parametrized type could be instantiated only once, the result depended
on the order in which packages were visited, and an argument named as the parameter
recursed infinitely. Argument lists were also resolved only up to the first symbol with
inner symbols.
---
 internal/ins/args.go       |  5 ++++-
 internal/ins/ins.go        | 21 ++++++++++++++++++++
 internal/ins/type_chain.go | 40 +++++++++++++++++++++++++++++++-------
 internal/prs/func.go       |  1 +
 internal/prs/inst.go       | 12 ++++++------
 internal/prs/type.go       | 22 +++++++++++++++------
 6 files changed, 81 insertions(+), 20 deletions(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 8bbd01a..af4716d 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -40,7 +40,10 @@ func resolveArgListsInSymbols(syms []prs.Symbol) error {
 		}
 
 		if len(f.Symbols()) > 0 {
-			return resolveArgListsInSymbols(f.Symbols())
+			err := resolveArgListsInSymbols(f.Symbols())
+			if err != nil {
+				return err
+			}
 		}
 	}
 
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 22f3c46..d2a1e2e 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -77,6 +77,10 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 					continue
 				}
 
+				if hasParamWithoutDflt(prsFn) {
+					continue
+				}
+
 				f := insFunctionality(prsFn)
 
 				if pkgName == "main" && name == mainName {
@@ -91,6 +95,23 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	return mainBus, pkgs, nil
 }
 
+// hasParamWithoutDflt returns true if functionality is a type with at least one parameter without default value.
+// Such a type cannot be instantiated on its own.
+func hasParamWithoutDflt(pf prs.Functionality) bool {
+	typ, ok := pf.(*prs.Type)
+	if !ok {
+		return false
+	}
+
+	for _, p := range typ.Params() {
+		if p.DfltValue == nil {
+			return true
+		}
+	}
+
+	return false
+}
+
 func insFunctionality(pf prs.Functionality) fn.Functionality {
 	typeChain := resolveToBaseType(pf)
 
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index a0b845a..68c0457 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -4,22 +4,48 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 )
 
+// typeChainIter returns an iterator over the functionalities of the type chain.
+//
+// The parameters of all the types in the chain are bound to the arguments valid for the chain.
+// When the chain is exhausted, the iterator restores the previous bindings, as a type
+// is shared by all its instantiations.
 func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
 	tc := typeChain
+
+	prevArgs := make([]map[string]prs.Expr, len(tc))
+	for i, f := range tc {
+		args := dfltArgs(f)
+		if i+1 < len(tc) {
+			args = tc[i+1].ResolvedArgs()
+		}
+		prevArgs[i] = f.BindParams(args)
+	}
+
 	i := 0
 	return func() (prs.Functionality, bool) {
 		if i == len(tc) {
+			for j, f := range tc {
+				f.BindParams(prevArgs[j])
+			}
 			return nil, false
 		}
-		resolvedArgs := make(map[string]prs.Expr)
-		if (i+1) < len(tc) && tc[i+1].ResolvedArgs() != nil {
-			resolvedArgs = tc[i+1].ResolvedArgs()
-		}
 		typ := tc[i]
-		if resolvedArgs != nil {
-			typ.SetResolvedArgs(resolvedArgs)
-		}
 		i += 1
 		return typ, true
 	}
 }
+
+// dfltArgs returns default values of the functionality parameters.
+func dfltArgs(f prs.Functionality) map[string]prs.Expr {
+	args := make(map[string]prs.Expr)
+
+	if typ, ok := f.(*prs.Type); ok {
+		for _, p := range typ.Params() {
+			if p.DfltValue != nil {
+				args[p.Name] = p.DfltValue
+			}
+		}
+	}
+
+	return args
+}
diff --git a/internal/prs/func.go b/internal/prs/func.go
index 23a4042..e8a722c 100644
--- a/internal/prs/func.go
+++ b/internal/prs/func.go
@@ -12,6 +12,7 @@ type Functionality interface {
 	Params() []Param
 	SetResolvedArgs(args map[string]Expr)
 	ResolvedArgs() map[string]Expr
+	BindParams(args map[string]Expr) map[string]Expr
 	Props() PropContainer
 	Symbols() []Symbol
 }
diff --git a/internal/prs/inst.go b/internal/prs/inst.go
index b3992f8..be709af 100644
--- a/internal/prs/inst.go
+++ b/internal/prs/inst.go
@@ -33,10 +33,6 @@ func (i *Inst) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := i.resolvedArgs[name]; ok {
-		return &Const{Value: v}, nil
-	}
-
 	return i.scope.GetConst(name)
 }
 
@@ -61,8 +57,12 @@ func (i *Inst) GetType(name string) (*Type, error) {
 func (i Inst) Args() []Arg                         { return i.argList.Args }
 func (i *Inst) SetResolvedArgs(ra map[string]Expr) { i.resolvedArgs = ra }
 func (i Inst) ResolvedArgs() map[string]Expr       { return i.resolvedArgs }
-func (i Inst) Props() PropContainer                { return i.props }
-func (i Inst) Symbols() []Symbol                   { return i.symbolContainer.Symbols() }
+
+// BindParams does nothing, as an instantiation has no parameters.
+func (i *Inst) BindParams(args map[string]Expr) map[string]Expr { return nil }
+
+func (i Inst) Props() PropContainer { return i.props }
+func (i Inst) Symbols() []Symbol    { return i.symbolContainer.Symbols() }
 
 func (i Inst) File() *File {
 	if i.file != nil {
diff --git a/internal/prs/type.go b/internal/prs/type.go
index cca11e5..d9e0764 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -16,8 +16,9 @@ type Type struct {
 	count Expr
 
 	params       []Param
+	boundParams  map[string]Expr // Values of parameters in the current instantiation.
 	args         ArgList
-	resolvedArgs map[string]Expr
+	resolvedArgs map[string]Expr // Arguments for the parameters of the parent type.
 
 	props PropContainer
 	symbolContainer
@@ -29,7 +30,7 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.resolvedArgs[name]; ok {
+	if v, ok := t.boundParams[name]; ok {
 		return &Const{Value: v}, nil
 	}
 
@@ -60,10 +61,19 @@ func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
-func (t Type) Props() PropContainer                { return t.props }
-func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
-func (t Type) IsArray() bool                       { return false }
-func (t Type) Count() Expr                         { return t.count }
+
+// BindParams binds type parameters to the given arguments.
+// It returns the arguments the parameters were bound to before the call.
+func (t *Type) BindParams(args map[string]Expr) map[string]Expr {
+	prev := t.boundParams
+	t.boundParams = args
+	return prev
+}
+
+func (t Type) Props() PropContainer { return t.props }
+func (t Type) Symbols() []Symbol    { return t.symbolContainer.Symbols() }
+func (t Type) IsArray() bool        { return false }
+func (t Type) Count() Expr          { return t.count }
 
 // buildTypes builds list of Types based on the list of ast.Type.
 func buildTypes(astTypes []ast.Type, src []byte) ([]*Type, error) {
-- 
2.43.0


From 385ca9917c344d15b9f58749ba457bf952f73c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 02/23] fix: report failed write of the registerification
 results

Error returned by the print was ignored, so the exit status was 0 even if the output was lost.
---
 cmd/fbdl/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index dbaccc3..5d78649 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -78,5 +78,8 @@ func main() {
 	if err != nil {
 		log.Fatalf("marshal registerification results: %v", err)
 	}
-	fmt.Printf("%s", string(jsonBytes))
+	_, err = os.Stdout.Write(jsonBytes)
+	if err != nil {
+		log.Fatalf("dump registerification results: %v", err)
+	}
 }
-- 
2.43.0


From 0a474745868c3cb559eed96da9b1ae5db331784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 03/23] fix: do not panic on file names shorter than 4
 characters in package directory

---
 internal/prs/prs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index e49ed09..2d1150d 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -55,7 +55,7 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		if file.IsDir() {
 			continue
 		}
-		if file.Name()[len(file.Name())-4:] != ".fbd" {
+		if !strings.HasSuffix(file.Name(), ".fbd") {
 			continue
 		}
 
-- 
2.43.0


From 832f00da5a6f05c581ce7e79e43516f01d7e653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 04/23] fix: do not drop a package because of a broken symlink
 or an I/O error

A broken symlink ended the walk through the directory, so that the package and all the directories
listed after the symlink were silently not found. The same happened for any error while examining
a directory or resolving a symlink. Only not existing directories and broken symlinks are ignored now.
---
 internal/prs/pre.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index cdbd022..d049f98 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -1,11 +1,14 @@
 package prs
 
 import (
+	"errors"
 	"fmt"
+	"io/fs"
 	"log"
 	"os"
 	"path/filepath"
 	"strings"
+	"syscall"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 )
@@ -60,8 +63,10 @@ func DiscoverPackages(main string) Packages {
 
 func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]struct{}) {
 	dirID, err := util.GetDirID(dirPath)
-	if err != nil {
+	if errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ENOTDIR) {
 		return
+	} else if err != nil {
+		panic(err)
 	}
 
 	if _, ok := visitedDirs[dirID]; ok {
@@ -88,9 +93,11 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 		}
 		if fileInfo.Mode()&os.ModeSymlink != 0 {
 			dePath, err = filepath.EvalSymlinks(dePath)
-			// If symlink returns an error, just ignore it.
-			if err != nil {
-				return
+			// If symlink is broken, just ignore it.
+			if err != nil && isBrokenSymlink(filepath.Join(dirPath, de.Name())) {
+				continue
+			} else if err != nil {
+				panic(err)
 			}
 		}
 
@@ -120,3 +127,9 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 		pkgs[pkgName] = append(pkgs[pkgName], &pkg)
 	}
 }
+
+// isBrokenSymlink returns true if symlink target does not exist.
+func isBrokenSymlink(path string) bool {
+	_, err := os.Stat(path)
+	return errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ENOTDIR) || errors.Is(err, syscall.ELOOP)
+}
-- 
2.43.0


From 0693b23539a98488f85129fb2efabda53f9cf281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 05/23] fix: make concurrent calls to Compile independent

The width and the alignment of the bus are stored in package level variables, so that concurrent
compilations of different buses corrupted the results of each other.
---
 pkg/fbdl/compile.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/fbdl/compile.go b/pkg/fbdl/compile.go
index d4c20dd..5be24ea 100644
--- a/pkg/fbdl/compile.go
+++ b/pkg/fbdl/compile.go
@@ -1,6 +1,8 @@
 package fbdl
 
 import (
+	"sync"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ins"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/reg"
@@ -8,9 +10,15 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
 )
 
+// compileMutex serializes compilations, as parameters of the bus being compiled are package level variables.
+var compileMutex sync.Mutex
+
 // Compile compiles functional bus description for a main bus named mainName located in the file which path is provided as mainPath.
 // If noTimestamp is true, then the bus timestamp is not generated.
 func Compile(mainPath, mainName string, addTimestamp bool) (*fn.Block, map[string]*pkg.Package, error) {
+	compileMutex.Lock()
+	defer compileMutex.Unlock()
+
 	packages := prs.DiscoverPackages(mainPath)
 	prs.ParsePackages(packages)
 
-- 
2.43.0


From 33bf72f86175ac23e147037fac99e21c8bc0ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 06/23] fix: make TIMESTAMP access as wide as the timestamp

For buses wider than 36 bits the access covered the whole register.
---
 internal/reg/reg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index 6331b57..b359827 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -67,7 +67,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 			log.Fatalf("'TIMESTAMP' is reserved functionality name in main bus")
 		}
 		ts := timestamp()
-		ts.Access = types.MakeSingleAccess(timestampAddr, 0, busWidth)
+		ts.Access = types.MakeSingleAccess(timestampAddr, 0, ts.Width)
 		bus.Statics = append(bus.Statics, ts)
 	}
 }
-- 
2.43.0


From 58f6bbb67159199de16de847ed7a9e19fd88e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 07/23] fix: report reinstantiation in another file of the
 package instead of crashing

---
 internal/prs/pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 0697fa7..3cc262a 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -65,7 +65,7 @@ func (p *Package) addInst(i *Inst) error {
 		msg := `reinstantiation of '%s' in package '%s'
   %s:%d:%d
   %s:%d:%d`
-		first, _ := p.symbolContainer.GetConst(i.name)
+		first, _ := p.symbolContainer.GetInst(i.name)
 		return fmt.Errorf(
 			msg, i.name, p.Name,
 			first.File().Path, first.Line(), first.Col(),
-- 
2.43.0


From cc8b26abf2715b4484c64162f23f701ee51c5e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 08/23] fix: report array size evaluation error instead of
 crashing

---
 internal/ins/common.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index f5b0051..6da4cc6 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -26,14 +26,14 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	if inst.IsArray() {
 		isArray = true
 		v, err := inst.Count().Eval()
+		if err != nil {
+			return fn.Func{}, fmt.Errorf("%v", err)
+		}
 
 		if v.Type() != "integer" {
 			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
 		}
 
-		if err != nil {
-			return fn.Func{}, fmt.Errorf("%v", err)
-		}
 		count = int64(v.(val.Int))
 		if count < 0 {
 			return fn.Func{}, tok.Error{
-- 
2.43.0


From d5b045a7131002f864878d340d15cc7bf5f60262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 09/23] fix: add gap to the pool only once

A gap that was not narrower than the gaps already in the pool was appended once per such a gap.
The size of the pool doubled with each such functionality, and the same gap could be given to
multiple functionalities.
---
 internal/gap/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/gap/pool.go b/internal/gap/pool.go
index 7bdd670..8b48c60 100644
--- a/internal/gap/pool.go
+++ b/internal/gap/pool.go
@@ -18,8 +18,8 @@ func (p *Pool) Add(g Gap) {
 				p.singles[i] = g
 				return
 			}
-			p.singles = append(p.singles, g)
 		}
+		p.singles = append(p.singles, g)
 	case Array:
 		if len(p.arrays) == 0 {
 			p.arrays = append(p.arrays, g)
@@ -33,6 +33,7 @@ func (p *Pool) Add(g Gap) {
 				return
 			}
 		}
+		p.arrays = append(p.arrays, g)
 	}
 }
 
-- 
2.43.0


From 69d1b447d608c1a77f57ffafcd3807a0a4606ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 10/23] fix: report cyclic definitions instead of overflowing
 the stack

A constant defined by itself, a type derived from itself and a type instantiated within itself made
the compiler recurse until the stack limit was reached.
---
 internal/ins/ins.go        | 26 +++++++++++++++++++++++---
 internal/ins/type_chain.go | 23 +++++++++++++++++++----
 internal/prs/const.go      | 15 +++++++++++++++
 internal/prs/expr.go       |  4 ++--
 internal/prs/func.go       |  2 +-
 internal/prs/inst.go       |  2 +-
 internal/prs/type.go       | 19 ++++++++++++-------
 7 files changed, 73 insertions(+), 18 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index d2a1e2e..6216652 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -4,6 +4,7 @@ package ins
 import (
 	"fmt"
 	"log"
+	"slices"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
@@ -51,6 +52,7 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 		return nil, nil, fmt.Errorf("%v", err)
 	}
 	log.Printf("debug: instantiating '%s' as the main bus", mainName)
+	appliedTypes = nil
 
 	err = setBusWidth(main)
 	if err != nil {
@@ -113,7 +115,16 @@ func hasParamWithoutDflt(pf prs.Functionality) bool {
 }
 
 func insFunctionality(pf prs.Functionality) fn.Functionality {
-	typeChain := resolveToBaseType(pf)
+	typeChain := resolveToBaseType(pf, nil)
+
+	for _, typ := range typeChain {
+		if isBeingApplied(typ) {
+			log.Fatalf(
+				"%s:%d:%d: '%s' is instantiated within its own type '%s'",
+				pf.File().Path, pf.Line(), pf.Col(), pf.Name(), typ.Name(),
+			)
+		}
+	}
 
 	var f fn.Functionality
 	var err error
@@ -155,9 +166,18 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 	return f
 }
 
-func resolveToBaseType(f prs.Functionality) []prs.Functionality {
+// resolveToBaseType returns the type chain of the functionality.
+// The descendants are the functionalities which type chain is being resolved.
+func resolveToBaseType(f prs.Functionality, descendants []prs.Functionality) []prs.Functionality {
 	typeChain := []prs.Functionality{}
 
+	if slices.Contains(descendants, f) {
+		log.Fatalf(
+			"%s:%d:%d: type '%s' is derived from itself",
+			f.File().Path, f.Line(), f.Col(), f.Name(),
+		)
+	}
+
 	if !util.IsBaseType(f.Type()) {
 		var s prs.Symbol
 		var err error
@@ -174,7 +194,7 @@ func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 		}
 		typeFn := s.(prs.Functionality)
 
-		typeChain = append(typeChain, resolveToBaseType(typeFn)...)
+		typeChain = append(typeChain, resolveToBaseType(typeFn, append(descendants, f))...)
 	}
 
 	typeChain = append(typeChain, f)
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index 68c0457..ffbec25 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -1,9 +1,20 @@
 package ins
 
 import (
+	"slices"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 )
 
+// The types which bodies are being applied, including the bodies of the enclosing functionalities.
+var appliedTypes []prs.Functionality
+
+// isBeingApplied returns true if the body of the type is being applied.
+// Instantiating such a type again would never end.
+func isBeingApplied(typ prs.Functionality) bool {
+	return slices.Contains(appliedTypes, typ)
+}
+
 // typeChainIter returns an iterator over the functionalities of the type chain.
 //
 // The parameters of all the types in the chain are bound to the arguments valid for the chain.
@@ -12,24 +23,28 @@ import (
 func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
 	tc := typeChain
 
-	prevArgs := make([]map[string]prs.Expr, len(tc))
+	restore := make([]func(), len(tc))
 	for i, f := range tc {
 		args := dfltArgs(f)
 		if i+1 < len(tc) {
 			args = tc[i+1].ResolvedArgs()
 		}
-		prevArgs[i] = f.BindParams(args)
+		restore[i] = f.BindParams(args)
 	}
 
+	enclosing := appliedTypes
+
 	i := 0
 	return func() (prs.Functionality, bool) {
 		if i == len(tc) {
-			for j, f := range tc {
-				f.BindParams(prevArgs[j])
+			for _, r := range restore {
+				r()
 			}
+			appliedTypes = enclosing
 			return nil, false
 		}
 		typ := tc[i]
+		appliedTypes = append(slices.Clone(enclosing), typ)
 		i += 1
 		return typ, true
 	}
diff --git a/internal/prs/const.go b/internal/prs/const.go
index ff69f97..f657314 100644
--- a/internal/prs/const.go
+++ b/internal/prs/const.go
@@ -5,16 +5,31 @@ import (
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ast"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
 
 // Const represents constant definition.
 type Const struct {
 	symbol
 	Value Expr
+
+	evaluating bool // Set while the value is being evaluated.
 }
 
 func (c Const) Kind() SymbolKind { return ConstDef }
 
+// eval evaluates the value of the constant referenced in an expression.
+func (c *Const) eval() (val.Value, error) {
+	if c.evaluating {
+		return nil, fmt.Errorf("constant '%s' is defined by itself", c.name)
+	}
+
+	c.evaluating = true
+	defer func() { c.evaluating = false }()
+
+	return c.Value.Eval()
+}
+
 // buildConsts builds list of Consts defined in the same scope based on the list of ast.Const.
 func buildConsts(astConsts []ast.Const, src []byte, scope Scope) ([]*Const, error) {
 	consts := make([]*Const, 0, len(astConsts))
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 29d11d9..788d489 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -342,7 +342,7 @@ func (di DeclaredIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating identifier '%s': %v", di.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant identifier '%s': %v", di.x, err)
 	}
@@ -364,7 +364,7 @@ func (qi QualifiedIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': %v", qi.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant qualified identifier '%s': %v", qi.x, err)
 	}
diff --git a/internal/prs/func.go b/internal/prs/func.go
index e8a722c..1c30363 100644
--- a/internal/prs/func.go
+++ b/internal/prs/func.go
@@ -12,7 +12,7 @@ type Functionality interface {
 	Params() []Param
 	SetResolvedArgs(args map[string]Expr)
 	ResolvedArgs() map[string]Expr
-	BindParams(args map[string]Expr) map[string]Expr
+	BindParams(args map[string]Expr) func()
 	Props() PropContainer
 	Symbols() []Symbol
 }
diff --git a/internal/prs/inst.go b/internal/prs/inst.go
index be709af..0684cd0 100644
--- a/internal/prs/inst.go
+++ b/internal/prs/inst.go
@@ -59,7 +59,7 @@ func (i *Inst) SetResolvedArgs(ra map[string]Expr) { i.resolvedArgs = ra }
 func (i Inst) ResolvedArgs() map[string]Expr       { return i.resolvedArgs }
 
 // BindParams does nothing, as an instantiation has no parameters.
-func (i *Inst) BindParams(args map[string]Expr) map[string]Expr { return nil }
+func (i *Inst) BindParams(args map[string]Expr) func() { return func() {} }
 
 func (i Inst) Props() PropContainer { return i.props }
 func (i Inst) Symbols() []Symbol    { return i.symbolContainer.Symbols() }
diff --git a/internal/prs/type.go b/internal/prs/type.go
index d9e0764..f43ab1d 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -16,7 +16,7 @@ type Type struct {
 	count Expr
 
 	params       []Param
-	boundParams  map[string]Expr // Values of parameters in the current instantiation.
+	boundParams  map[string]*Const // Values of parameters in the current instantiation.
 	args         ArgList
 	resolvedArgs map[string]Expr // Arguments for the parameters of the parent type.
 
@@ -30,8 +30,8 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.boundParams[name]; ok {
-		return &Const{Value: v}, nil
+	if c, ok := t.boundParams[name]; ok {
+		return c, nil
 	}
 
 	return t.scope.GetConst(name)
@@ -63,11 +63,16 @@ func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
 
 // BindParams binds type parameters to the given arguments.
-// It returns the arguments the parameters were bound to before the call.
-func (t *Type) BindParams(args map[string]Expr) map[string]Expr {
+// The returned function restores the previous bindings.
+func (t *Type) BindParams(args map[string]Expr) func() {
 	prev := t.boundParams
-	t.boundParams = args
-	return prev
+
+	t.boundParams = make(map[string]*Const)
+	for name, v := range args {
+		t.boundParams[name] = &Const{symbol: symbol{name: name}, Value: v}
+	}
+
+	return func() { t.boundParams = prev }
 }
 
 func (t Type) Props() PropContainer { return t.props }
-- 
2.43.0


From 49cfdf2341a572a32f73d5c7c9d414e35d5f1ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 11/23] fix: report package constant that cannot be evaluated
 instead of crashing

---
 internal/ins/const.go | 21 +++++++++++++++------
 internal/ins/ins.go   |  5 ++++-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/internal/ins/const.go b/internal/ins/const.go
index 0c3f184..7f8267d 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -1,12 +1,14 @@
 package ins
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
 )
 
-func constifyPackages(packages prs.Packages) map[string]*pkg.Package {
+func constifyPackages(packages prs.Packages) (map[string]*pkg.Package, error) {
 	cPkgs := map[string]*pkg.Package{}
 
 	// TODO: Resolve name conflicts.
@@ -15,23 +17,30 @@ func constifyPackages(packages prs.Packages) map[string]*pkg.Package {
 			panic("not yet implemented")
 		}
 		for _, pkg := range pkgs {
-			cPkgs[name] = constifyPkg(pkg)
+			cPkg, err := constifyPkg(pkg)
+			if err != nil {
+				return nil, err
+			}
+			cPkgs[name] = cPkg
 		}
 	}
 
-	return cPkgs
+	return cPkgs, nil
 }
 
-func constifyPkg(pp *prs.Package) *pkg.Package {
+func constifyPkg(pp *prs.Package) (*pkg.Package, error) {
 	p := pkg.Package{}
 
 	for _, c := range pp.Consts {
 		v, err := c.Value.Eval()
 		if err != nil {
-			panic("not yet implemented")
+			return nil, fmt.Errorf(
+				"%s:%d:%d: cannot evaluate expression for const '%s': %v",
+				c.File().Path, c.Line(), c.Col(), c.Name(), err,
+			)
 		}
 		constContainer.AddConst(&p.Consts, c.Name(), v)
 	}
 
-	return &p
+	return &p, nil
 }
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 6216652..85deff3 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -92,7 +92,10 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 		}
 	}
 
-	pkgs := constifyPackages(packages)
+	pkgs, err := constifyPackages(packages)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	return mainBus, pkgs, nil
 }
-- 
2.43.0


From d3dc5d7a7c5f2e901d1e69d6d7e5597a16181513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 12/23] fix: determine file of a nested type instead of
 crashing when reporting an error

---
 internal/prs/type.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/type.go b/internal/prs/type.go
index f43ab1d..7440194 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -80,6 +80,18 @@ func (t Type) Symbols() []Symbol    { return t.symbolContainer.Symbols() }
 func (t Type) IsArray() bool        { return false }
 func (t Type) Count() Expr          { return t.count }
 
+func (t Type) File() *File {
+	if t.file != nil {
+		return t.file
+	}
+
+	if s, ok := t.scope.(Symbol); ok {
+		return s.File()
+	}
+
+	panic("should never happen")
+}
+
 // buildTypes builds list of Types based on the list of ast.Type.
 func buildTypes(astTypes []ast.Type, src []byte) ([]*Type, error) {
 	types := make([]*Type, 0, len(astTypes))
-- 
2.43.0


From 8c946b90b7bdc1759e9795f211e60b1bc02bc7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 13/23] fix: report invalid argument lists instead of crashing
 or ignoring arguments

---
 internal/ins/args.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index af4716d..36d3984 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -63,6 +63,11 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 
 	params := typeSymbol.Params()
 
+	err = checkArgs(args, params)
+	if err != nil {
+		return nil, fmt.Errorf("type '%s': %v", symbol.Type(), err)
+	}
+
 	var argName string
 	var argHasName bool
 	for i, p := range params {
@@ -114,3 +119,38 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 
 	return resolvedArgs, nil
 }
+
+// checkArgs checks whether arguments can be unambiguously assigned to the parameters.
+func checkArgs(args []prs.Arg, params []prs.Param) error {
+	if len(args) > len(params) {
+		return fmt.Errorf("too many arguments, expected at most %d, got %d", len(params), len(args))
+	}
+
+	assigned := make(map[string]bool)
+	for i, a := range args {
+		if a.Name == "" {
+			assigned[params[i].Name] = true
+			continue
+		}
+
+		known := false
+		for _, p := range params {
+			known = known || p.Name == a.Name
+		}
+		if !known {
+			return fmt.Errorf("unknown parameter '%s'", a.Name)
+		}
+		if assigned[a.Name] {
+			return fmt.Errorf("parameter '%s' assigned twice", a.Name)
+		}
+		assigned[a.Name] = true
+	}
+
+	for _, p := range params {
+		if p.DfltValue == nil && !assigned[p.Name] {
+			return fmt.Errorf("missing argument for parameter '%s'", p.Name)
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 7fc9a7791188cbea0c3703f0f44cd753452e2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 14/23] fix: strip fbd- prefix from the default import name

---
 internal/prs/import.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/prs/import.go b/internal/prs/import.go
index 311d636..314a96d 100644
--- a/internal/prs/import.go
+++ b/internal/prs/import.go
@@ -29,8 +29,8 @@ func buildImports(astImports []ast.Import, src []byte) []Import {
 			path = path[1 : len(path)-1]
 			// TODO: Should it be [0] or the last element?
 			name = strings.Split(path, string(os.PathSeparator))[0]
-			if len(name) > 4 && name[0:3] == "fbd-" {
-				name = name[4:]
+			if len(name) > 4 {
+				name = strings.TrimPrefix(name, "fbd-")
 			}
 		} else {
 			name = tok.Text(ai.Name, src)
-- 
2.43.0


From f48f048dd86ed337af804483bf866c1666e0d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:38 +0000
Subject: [PATCH 15/23] fix: do not suppress diagnostics of sources which path
 starts with debug

---
 cmd/fbdl/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index 5d78649..a8259c7 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"strings"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/args"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ins"
@@ -19,7 +20,7 @@ type Logger struct{}
 func (l Logger) Write(p []byte) (int, error) {
 	print := true
 
-	if len(p) > 4 && string(p)[:5] == "debug" {
+	if strings.HasPrefix(string(p), "debug: ") {
 		print = printDebug
 	}
 
-- 
2.43.0


From a92b49e8e8ddb5fb0445d0987243baf7a7771d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 16/23] fix: report location of a conflicting property instead
 of addresses of methods

---
 internal/prs/check.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/prs/check.go b/internal/prs/check.go
index dc28aa3..1ed26f3 100644
--- a/internal/prs/check.go
+++ b/internal/prs/check.go
@@ -19,7 +19,10 @@ func checkPropConflict(typ string, prop Prop, props PropContainer) error {
 
 	if r, ok := props.Get("range"); ok {
 		if prop.Name == "width" {
-			return fmt.Errorf(msg, "width", "range", r.Line, r.Col)
+			return tok.Error{
+				Msg:  fmt.Sprintf(msg, "width", "range", r.Line(), r.Col()),
+				Toks: []tok.Token{prop.NameTok, r.NameTok},
+			}
 		}
 	}
 
-- 
2.43.0


From 29f6db45ab78d6033e008fbd8903fbf1f571a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:12 +0000
Subject: [PATCH 17/23] fix: report division by zero instead of crashing

---
 internal/prs/expr.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 788d489..fe85024 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -96,6 +96,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Div:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				if x%y == 0 {
 					v = x / y
 				} else {
@@ -105,6 +111,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Rem:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				v = x % y
 			}
 		case tok.Exp:
-- 
2.43.0


From 9cdd2ad2ccbcdf92f62e92f9715f713f020960c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:14 +0000
Subject: [PATCH 18/23] fix: report invalid arguments of ceil, floor, log2 and
 log10

---
 internal/prs/call.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 5439258..446e025 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -63,6 +63,8 @@ func evalCeil(c Call) (val.Value, error) {
 		return arg, nil
 	case val.Float:
 		f = float64(arg)
+	default:
+		return nil, fmt.Errorf("cannot evaluate ceil for argument of %s type", arg.Type())
 	}
 
 	return val.Int(int64(math.Ceil(f))), nil
@@ -81,6 +83,8 @@ func evalFloor(c Call) (val.Value, error) {
 		return arg, nil
 	case val.Float:
 		f = float64(arg)
+	default:
+		return nil, fmt.Errorf("cannot evaluate floor for argument of %s type", arg.Type())
 	}
 
 	return val.Int(int64(math.Floor(f))), nil
@@ -108,6 +112,10 @@ func evalLog2(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log2 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("cannot evaluate log2 for argument that is not positive, current value %v", f)
+	}
+
 	r := math.Log2(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
@@ -138,6 +146,10 @@ func evalLog10(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log10 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("cannot evaluate log10 for argument that is not positive, current value %v", f)
+	}
+
 	r := math.Log10(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
-- 
2.43.0


From 78feac9abe42ed0816e06506c0a948e4ac98afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 19/23] fix: report constants of not supported types instead of
 crashing or dropping them

---
 internal/ins/block.go                         |  5 ++-
 internal/ins/const.go                         |  5 ++-
 internal/ins/group.go                         |  5 ++-
 .../util/constContainer/constContainer.go     | 34 +++++++++++++------
 4 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 7fe70c4..391f875 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -98,7 +98,10 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
 				)
 			}
-			constContainer.AddConst(&blk.Consts, c.Name(), val)
+			err = constContainer.AddConst(&blk.Consts, c.Name(), val)
+			if err != nil {
+				return fmt.Errorf("%d:%d: %v", c.Line(), c.Col(), err)
+			}
 		}
 
 		_, ok := s.(*prs.Inst)
diff --git a/internal/ins/const.go b/internal/ins/const.go
index 7f8267d..50180f6 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -39,7 +39,10 @@ func constifyPkg(pp *prs.Package) (*pkg.Package, error) {
 				c.File().Path, c.Line(), c.Col(), c.Name(), err,
 			)
 		}
-		constContainer.AddConst(&p.Consts, c.Name(), v)
+		err = constContainer.AddConst(&p.Consts, c.Name(), v)
+		if err != nil {
+			return nil, fmt.Errorf("%s:%d:%d: %v", c.File().Path, c.Line(), c.Col(), err)
+		}
 	}
 
 	return &p, nil
diff --git a/internal/ins/group.go b/internal/ins/group.go
index 7699b5b..9d57b6d 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -104,7 +104,10 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
 				)
 			}
-			constContainer.AddConst(&grp.Consts, c.Name(), val)
+			err = constContainer.AddConst(&grp.Consts, c.Name(), val)
+			if err != nil {
+				return fmt.Errorf("%d:%d: %v", c.Line(), c.Col(), err)
+			}
 		}
 
 		_, ok := sym.(*prs.Inst)
diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index ec9ae74..acdb1f1 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -1,6 +1,8 @@
 package constContainer
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
 )
@@ -26,10 +28,10 @@ func HasConst(c cnst.Container, name string) bool {
 	return false
 }
 
-func AddConst(c *cnst.Container, name string, v val.Value) {
-	switch v.(type) {
-	case val.BitStr:
-		panic("not yet implemented")
+// AddConst adds constant to the container.
+// An error is returned if the container cannot hold constants of the value type.
+func AddConst(c *cnst.Container, name string, v val.Value) error {
+	switch v := v.(type) {
 	case val.Bool:
 		addBoolConst(c, name, v)
 	case val.Float:
@@ -37,23 +39,33 @@ func AddConst(c *cnst.Container, name string, v val.Value) {
 	case val.Int:
 		addIntConst(c, name, v)
 	case val.List:
-		switch v.(val.List)[0].(type) {
-		case val.BitStr:
-			panic("not yet implemented")
+		if len(v) == 0 {
+			return fmt.Errorf("constant '%s' is an empty list", name)
+		}
+
+		for _, e := range v {
+			if e.Type() != v[0].Type() {
+				return fmt.Errorf(
+					"constant '%s' is a list of elements of different types: %s, %s", name, v[0].Type(), e.Type(),
+				)
+			}
+		}
+
+		switch v[0].(type) {
 		case val.Bool:
 			addBoolListConst(c, name, v)
 		case val.Int:
 			addIntListConst(c, name, v)
-		case val.Str:
-			panic("not yet implemented")
 		default:
-			panic("should never happen")
+			return fmt.Errorf("constant '%s' is a list of elements of not supported type: %s", name, v[0].Type())
 		}
 	case val.Str:
 		addStrConst(c, name, v)
 	default:
-		panic("should never happen")
+		return fmt.Errorf("constant '%s' is of not supported type: %s", name, v.Type())
 	}
+
+	return nil
 }
 
 func addBoolConst(c *cnst.Container, name string, v val.Value) {
-- 
2.43.0


From 5cbdd7e6706bdc5e503f90f836f90b640f6c2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:33 +0000
Subject: [PATCH 20/23] fix: report redefinition of a float constant of an
 ancestor type

---
 internal/util/constContainer/constContainer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index acdb1f1..1ff884f 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -15,6 +15,9 @@ func HasConst(c cnst.Container, name string) bool {
 	if _, ok := c.BoolLists[name]; ok {
 		return true
 	}
+	if _, ok := c.Floats[name]; ok {
+		return true
+	}
 	if _, ok := c.Ints[name]; ok {
 		return true
 	}
-- 
2.43.0


From d5f8d898c0955a1b30f1093d85e105346051da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:37 +0000
Subject: [PATCH 21/23] fix: name a package after the real directory when it is
 a search path itself

---
 internal/prs/pre.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index d049f98..56f5c48 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -36,7 +36,28 @@ func DiscoverPackages(main string) Packages {
 	packages := make(Packages)
 	visitedDirs := make(map[util.DirID]struct{})
 
+	realCwd, err := filepath.EvalSymlinks(cwd)
+	if err != nil {
+		panic(err)
+	}
+
 	for _, path := range pathsToLook {
+		realPath, err := filepath.EvalSymlinks(path)
+		if err != nil && isBrokenSymlink(path) {
+			continue
+		} else if err != nil {
+			panic(err)
+		}
+		if !filepath.IsAbs(realPath) {
+			realPath = filepath.Join(realCwd, realPath)
+		}
+
+		// The directory to look in can be a package itself. The package name is the name
+		// of the real directory, not of the symlink or spelling it is reached with.
+		if isPkgDirName(filepath.Base(realPath)) || isPkgDirName(filepath.Base(path)) {
+			path = realPath
+		}
+
 		findPkgsInDir(path, packages, visitedDirs)
 	}
 
@@ -82,7 +103,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 
 	base := filepath.Base(dirPath)
 	pkgPath := dirPath
-	hasPkgPrefix := strings.HasPrefix(base, "fbd-")
+	hasPkgPrefix := isPkgDirName(base)
 	isPkgDir := false
 
 	for _, de := range dirEntires {
@@ -128,6 +149,11 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 	}
 }
 
+// isPkgDirName returns true if a directory with given name can be a package.
+func isPkgDirName(name string) bool {
+	return strings.HasPrefix(name, "fbd-")
+}
+
 // isBrokenSymlink returns true if symlink target does not exist.
 func isBrokenSymlink(path string) bool {
 	_, err := os.Stat(path)
-- 
2.43.0


From f37abdda2396583f9ca522b7b9677725fd79111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:42 +0000
Subject: [PATCH 22/23] fix: do not read a link to a directory as a source file
 of a package

---
 internal/prs/prs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index 2d1150d..1957423 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -58,6 +58,13 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		if !strings.HasSuffix(file.Name(), ".fbd") {
 			continue
 		}
+		// A symbolic link is followed, as it may point to a directory.
+		if file.Type()&os.ModeSymlink != 0 {
+			info, err := os.Stat(path.Join(pkg.Path, file.Name()))
+			if err == nil && info.IsDir() {
+				continue
+			}
+		}
 
 		filePath := path.Join(pkg.Path, file.Name())
 		filePath = strings.TrimPrefix(filePath, cwd)
-- 
2.43.0


From 650643cb320f688daf9324ac76293b9b07cd83e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:31 +0000
Subject: [PATCH 23/23] fix: do not continue the compilation when parsing of a
 package panics

---
 internal/prs/prs.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index 1957423..ce169ec 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -18,7 +18,12 @@ func ParsePackages(packages Packages) {
 	for name := range packages {
 		for i := range packages[name] {
 			wg.Add(1)
-			go parsePackage(packages[name][i], &wg)
+			go func(pkg *Package) {
+				parsePackage(pkg)
+				// Done must not be deferred. If parsing panics, then the compilation must not
+				// be continued without the package before the panic ends the process.
+				wg.Done()
+			}(packages[name][i])
 		}
 	}
 
@@ -27,9 +32,7 @@ func ParsePackages(packages Packages) {
 	bindImports(packages)
 }
 
-func parsePackage(pkg *Package, wg *sync.WaitGroup) {
-	defer wg.Done()
-
+func parsePackage(pkg *Package) {
 	var filesWG sync.WaitGroup
 	defer filesWG.Wait()
 
-- 
2.43.0


From e891bd54e81a93125ca00a13d3d1e3cfc6ff99fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:12 +0000
Subject: [PATCH 01/31] fix: sort errors by their actual name

The Error type declared its own 'name' field, never assigned, that hides the one of the embedded
support type. As a result sorting the errors of a version that has two or more of them compared
nil names and crashed.
---
 pkg/concepts/error.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/concepts/error.go b/pkg/concepts/error.go
index 502bc64..25d3863 100644
--- a/pkg/concepts/error.go
+++ b/pkg/concepts/error.go
@@ -27,7 +27,6 @@ type Error struct {
 	namedSupport
 
 	owner *Version
-	name  *names.Name
 	code  int
 }
 
-- 
2.43.0


From 0cac445a40fcf5e51cf0c08f51cf6b8dcaf824b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:14 +0000
Subject: [PATCH 02/31] fix: don't crash when checking loops of incomplete
 models

The check of locator loops assumed that there is always a root resource and that all the locators
have a target. When that wasn't true the problem was reported, but then the process crashed instead
of finishing with an error.
---
 pkg/language/checks.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/language/checks.go b/pkg/language/checks.go
index 28c71b3..0a5d6e1 100644
--- a/pkg/language/checks.go
+++ b/pkg/language/checks.go
@@ -590,13 +590,24 @@ func (r *Reader) checkResponseParameter(method *concepts.Method, name *names.Nam
 }
 
 func (r *Reader) checkLocatorLoops(version *concepts.Version) {
-	for _, locator := range version.Root().Locators() {
+	// The absence of the root resource has already been reported:
+	root := version.Root()
+	if root == nil {
+		return
+	}
+
+	for _, locator := range root.Locators() {
 		path := []*concepts.Locator{locator}
 		r.checkLocatorPathLoops(path)
 	}
 }
 
 func (r *Reader) checkLocatorPathLoops(path []*concepts.Locator) {
+	// A locator without target has already been reported, and it can't be part of a loop:
+	if path[len(path)-1].Target() == nil {
+		return
+	}
+
 	// Try to find a previous locator that is defined in the same resource that is the target of
 	// the last locator. If there is such locator then there is a loop and we should not
 	// continue checking this path.
-- 
2.43.0


From 5541bcceacebb441311e77ff788e7d9a50b94477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:16 +0000
Subject: [PATCH 03/31] fix: don't crash when first line of documentation is
 blank

---
 pkg/language/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2972465..d87f1a3 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1093,6 +1093,9 @@ func (r *Reader) getDoc(token antlr.Token) string {
 		index := strings.IndexFunc(first, func(r rune) bool {
 			return !unicode.IsSpace(r)
 		})
+		if index < 0 {
+			index = len(first)
+		}
 		prefix := first[0:index]
 		for i, line := range lines {
 			if line != "" {
-- 
2.43.0


From 6e1aefdd46592993f4803ea8a20dd798eca47e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:18 +0000
Subject: [PATCH 04/31] fix: use the chunk instead of the whole text when
 parsing names

When a chunk that isn't followed by something that can be merged with it was found, for example the
'my' of 'myID', the whole text was added as a word instead of only that chunk.
---
 pkg/names/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/names/parser.go b/pkg/names/parser.go
index 749883c..658e97d 100644
--- a/pkg/names/parser.go
+++ b/pkg/names/parser.go
@@ -110,7 +110,7 @@ func ParseUsingCase(text string) *Name {
 			}
 
 			// Anything else is a word by itself:
-			word := parseWord(text)
+			word := parseWord(current)
 			words = append(words, word)
 			i++
 		}
-- 
2.43.0


From ca371238e94160d8b699a9983ae136ad85dfd138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:20 +0000
Subject: [PATCH 05/31] fix: reject files that can't be completely parsed

The parser silently stopped at the first thing that isn't a declaration, so everything after, for
example, a misspelled keyword was ignored. When the parser did report a syntax error the incomplete
tree was processed anyhow, and that could crash.
---
 pkg/language/reader.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index d87f1a3..4e1a587 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -333,7 +333,24 @@ func (r *Reader) loadFile(path string) {
 	parser := NewModelParser(stream)
 	parser.RemoveErrorListeners()
 	parser.AddErrorListener(listener)
+	before := r.reporter.Errors()
 	tree := parser.File()
+
+	// The parser stops, without complaining, when it finds something that isn't a declaration, so
+	// we need to check that the complete file has been consumed:
+	next := stream.LT(1)
+	if next.GetTokenType() != antlr.TokenEOF {
+		r.reporter.Errorf(
+			"Line %d, column %d: unexpected input '%s'",
+			next.GetLine(), next.GetColumn(), next.GetText(),
+		)
+	}
+
+	// If there are syntax errors then the tree is incomplete, and it can't be processed:
+	if r.reporter.Errors() > before {
+		return
+	}
+
 	antlr.ParseTreeWalkerDefault.Walk(r, tree)
 }
 
-- 
2.43.0


From d745d524b7f2441b2ee922eee85dca14a7961d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:28 +0000
Subject: [PATCH 06/31] fix: report undefined concepts of all the versions

The concepts that are referenced but not defined were indexed only by name, so the definition of a
type in one version hid the lack of definition of a type with the same name in other version.
---
 pkg/language/reader.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 4e1a587..2ea74b7 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1026,51 +1026,57 @@ func (r *Reader) ExitAnnotationParameter(ctx *AnnotationParameterContext) {
 	ctx.SetValue(ctx.Literal().GetResult())
 }
 
+// undefinedKey calculates the key used to store an undefined concept. The name of the concept isn't
+// enough because the same name can be used in multiple versions.
+func undefinedKey(version *concepts.Version, name *names.Name) string {
+	return fmt.Sprintf("%s/%s/%s", version.Owner().Name(), version.Name(), name)
+}
+
 func (r *Reader) isUndefinedType(typ *concepts.Type) bool {
-	key := typ.Name().String()
+	key := undefinedKey(typ.Owner(), typ.Name())
 	_, ok := r.undefinedTypes[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := undefinedKey(typ.Owner(), typ.Name())
 	r.undefinedTypes[key] = typ
 }
 
 func (r *Reader) removeUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := undefinedKey(typ.Owner(), typ.Name())
 	delete(r.undefinedTypes, key)
 }
 
 func (r *Reader) isUndefinedResource(resource *concepts.Resource) bool {
-	key := resource.Name().String()
+	key := undefinedKey(resource.Owner(), resource.Name())
 	_, ok := r.undefinedResources[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedResource(resource *concepts.Resource) {
-	key := resource.Name().String()
+	key := undefinedKey(resource.Owner(), resource.Name())
 	r.undefinedResources[key] = resource
 }
 
 func (r *Reader) removeUndefinedResource(typ *concepts.Resource) {
-	key := typ.Name().String()
+	key := undefinedKey(typ.Owner(), typ.Name())
 	delete(r.undefinedResources, key)
 }
 
 func (r *Reader) isUndefinedError(err *concepts.Error) bool {
-	key := err.Name().String()
+	key := undefinedKey(err.Owner(), err.Name())
 	_, ok := r.undefinedErrors[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedError(err *concepts.Error) {
-	key := err.Name().String()
+	key := undefinedKey(err.Owner(), err.Name())
 	r.undefinedErrors[key] = err
 }
 
 func (r *Reader) removeUndefinedError(typ *concepts.Error) {
-	key := typ.Name().String()
+	key := undefinedKey(typ.Owner(), typ.Name())
 	delete(r.undefinedErrors, key)
 }
 
-- 
2.43.0


From 8a55572d7122c32eceeda77b2259a90810b67e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:22 +0000
Subject: [PATCH 07/31] fix: report incorrect references instead of crashing or
 ignoring them

A reference that doesn't have the three expected components, or that points to a service or version
that doesn't exist, or that is inside a service that is itself referenced, crashed the tool. A
reference to a type that doesn't exist was silently ignored.
---
 pkg/language/reader.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2ea74b7..418ff23 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -477,12 +477,24 @@ func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 }
 
 func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
-	if len(r.inputs) > 1 {
-		panic("referenced service with multiple inputs in undefined")
+	if len(r.inputs) != 1 {
+		r.reporter.Errorf(
+			"Type '%s' can't reference '%s' because references aren't supported when there "+
+				"are multiple inputs, or inside services that are themselves referenced",
+			typ.Name(), path,
+		)
+		return
 	}
 	input := r.inputs[0]
 	path = strings.TrimPrefix(path, "/")
 	components := strings.Split(path, "/")
+	if len(components) != 3 {
+		r.reporter.Errorf(
+			"Reference '%s' of type '%s' should contain a service, a version and a type",
+			path, typ.Name(),
+		)
+		return
+	}
 	referencedServiceName := components[0]
 	referencedVersion := components[1]
 	referencedTypeName := components[2]
@@ -499,11 +511,27 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 
 	// load the ad-hoc service and version referenced and find the correct type.
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
+	if refReader.service == nil {
+		// The problem has already been reported.
+		return
+	}
 	refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+	if refVersion == nil {
+		r.reporter.Errorf(
+			"Version '%s' referenced by type '%s' doesn't exist",
+			referencedVersion, typ.Name(),
+		)
+		return
+	}
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
 	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
 		r.recursivelyAddTypeToVersion(typ, referencedType)
+	} else {
+		r.reporter.Errorf(
+			"Type '%s' referenced by type '%s' doesn't exist",
+			referencedTypeName, typ.Name(),
+		)
 	}
 }
 
-- 
2.43.0


From 97ab8099a1ce8e91c4516dade1155448881309b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:55 +0000
Subject: [PATCH 08/31] fix: support references to types that reference
 themselves

Following a reference to a type that, directly or indirectly, has an attribute of that same type
never finished, and crashed when the stack was exhausted.
---
 pkg/language/reader.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 418ff23..5c49114 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -526,7 +526,7 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
 	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
-		r.recursivelyAddTypeToVersion(typ, referencedType)
+		r.recursivelyAddTypeToVersion(typ, referencedType, map[*concepts.Type]bool{})
 	} else {
 		r.reporter.Errorf(
 			"Type '%s' referenced by type '%s' doesn't exist",
@@ -537,10 +537,17 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 
 // A helper function to recursively add types to a version
 func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
-	referencedType *concepts.Type) {
+	referencedType *concepts.Type, visited map[*concepts.Type]bool) {
 	if referencedType.IsBasicType() {
 		return
 	}
+
+	// Types can reference themselves, directly or via other types:
+	if visited[referencedType] {
+		return
+	}
+	visited[referencedType] = true
+
 	for _, attribute := range referencedType.Attributes() {
 		// If attribute is explicitDeclared, it needs to change it's owner to be the same as currType
 		if attribute.Link() {
@@ -564,9 +571,9 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 			attribute.SetLinkOwner(attribute.Type().Owner())
 		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
 			r.version.AddType(attribute.Type())
-			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), visited)
 		} else {
-			r.recursivelyAddTypeToVersion(currType, attribute.Type())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type(), visited)
 		}
 	}
 
-- 
2.43.0


From 0118377676469a568a670c5ea806e277e9a6632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:59 +0000
Subject: [PATCH 09/31] fix: generate correct code for map and interface
 parameters

Clients of methods with request parameters of map types, or with parameters of the interface type, used
pointers where the type of the field isn't a pointer, so the generated code didn't compile.
---
 pkg/generators/golang/clients_generator.go | 16 ++++++++++------
 pkg/generators/golang/json_generator.go    |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 994d78c..68d6456 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -819,7 +819,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				{{ if or .Type.IsStruct .Type.IsList }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 					r.{{ $fieldName }} = value
 				{{ else }}
 					r.{{ $fieldName }} = &value
@@ -843,7 +843,11 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 				{{ $fieldName := fieldName . }}
 				{{ $parameterName := parameterName . }}
 				if r.{{ $fieldName }} != nil {
-					helpers.AddValue(&query, "{{ $parameterName }}", *r.{{ $fieldName }})
+					{{ if .Type.IsInterface }}
+						helpers.AddValue(&query, "{{ $parameterName }}", r.{{ $fieldName }})
+					{{ else }}
+						helpers.AddValue(&query, "{{ $parameterName }}", *r.{{ $fieldName }})
+					{{ end }}
 				}
 			{{ end }}
 			header := helpers.CopyHeader(r.header)
@@ -976,12 +980,12 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $responseName }}) {{ $getterName }}() {{ $getterType }} {
-				{{ if .Type.IsScalar }}
+				{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 					if r != nil && r.{{ $fieldName }} != nil {
 						return *r.{{ $fieldName }}
 					}
 					return {{ zeroValue .Type }}
-				{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+				{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 					if r == nil {
 						return nil
 					}
@@ -996,9 +1000,9 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			func (r *{{ $responseName }}) Get{{ $getterName }}() (value {{ $getterType }}, ok bool) {
 				ok = r != nil && r.{{ $fieldName }} != nil
 				if ok {
-					{{ if .Type.IsScalar }}
+					{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 						value = *r.{{ $fieldName }}
-					{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+					{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 						value = r.{{ $fieldName }}
 					{{ end }}
 				}
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 66fac4b..eebaa36 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1306,7 +1306,7 @@ func (g *JSONSupportGenerator) generateReadBodyParameter(object string,
 	return g.buffer.Eval(`
 		case "{{ .Tag }}":
 			{{ generateReadValue "value" .Type false .LinkOwner }}
-			{{ if .Type.IsScalar }}
+			{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 				{{ .Object }}.{{ .Field }} = &value
 			{{ else }}
 				{{ .Object }}.{{ .Field }} = value
-- 
2.43.0


From ced94a0ca77df52a0ead7cc275b0a8b302d4700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:31 +0000
Subject: [PATCH 10/31] fix: avoid conflicts of parameters with built-in fields
 and methods

The names of parameters that conflict with the built-in 'status' and 'err' fields were changed in the
clients, but not in the code that reads and writes JSON, so the generated code didn't compile. The rest
of the built-in fields and methods of the requests and responses weren't considered.
---
 pkg/generators/golang/clients_generator.go | 25 ++++++++++++++++------
 pkg/generators/golang/json_generator.go    |  2 +-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 68d6456..e13f461 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -1042,7 +1042,7 @@ func (g *ClientsGenerator) enumName(typ *concepts.Type) string {
 
 func (g *ClientsGenerator) fieldName(parameter *concepts.Parameter) string {
 	name := g.names.Private(parameter.Name())
-	name = g.avoidBuiltin(name, builtinFields)
+	name = avoidBuiltin(name, builtinFields)
 	return name
 }
 
@@ -1069,7 +1069,7 @@ func (g *ClientsGenerator) getterName(parameter *concepts.Parameter) string {
 	if name == "" {
 		name = g.names.Public(parameter.Name())
 	}
-	name = g.avoidBuiltin(name, builtinGetters)
+	name = avoidBuiltin(name, builtinGetters)
 	return name
 }
 
@@ -1082,7 +1082,7 @@ func (g *ClientsGenerator) setterName(parameter *concepts.Parameter) string {
 	if name == "" {
 		name = g.names.Public(parameter.Name())
 	}
-	name = g.avoidBuiltin(name, builtinSetters)
+	name = avoidBuiltin(name, builtinSetters)
 	return name
 }
 
@@ -1244,7 +1244,7 @@ func (g *ClientsGenerator) readResponseFunc(method *concepts.Method) string {
 	return g.names.Private(name)
 }
 
-func (g *ClientsGenerator) avoidBuiltin(name string, builtins map[string]interface{}) string {
+func avoidBuiltin(name string, builtins map[string]interface{}) string {
 	_, ok := builtins[name]
 	if ok {
 		name = name + "_"
@@ -1253,13 +1253,24 @@ func (g *ClientsGenerator) avoidBuiltin(name string, builtins map[string]interfa
 }
 
 var builtinFields = map[string]interface{}{
-	"err":    nil,
-	"status": nil,
+	"err":       nil,
+	"header":    nil,
+	"path":      nil,
+	"query":     nil,
+	"status":    nil,
+	"transport": nil,
 }
 
 var builtinGetters = map[string]interface{}{
 	"Error":  nil,
+	"Header": nil,
 	"Status": nil,
 }
 
-var builtinSetters = map[string]interface{}{}
+var builtinSetters = map[string]interface{}{
+	"Header":      nil,
+	"Impersonate": nil,
+	"Parameter":   nil,
+	"Send":        nil,
+	"SendContext": nil,
+}
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index eebaa36..d355a8c 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1567,7 +1567,7 @@ func (g *JSONSupportGenerator) fieldName(attribute *concepts.Attribute) string {
 }
 
 func (g *JSONSupportGenerator) parameterFieldName(parameter *concepts.Parameter) string {
-	return g.names.Private(parameter.Name())
+	return avoidBuiltin(g.names.Private(parameter.Name()), builtinFields)
 }
 
 func (g *JSONSupportGenerator) clientRequestName(method *concepts.Method) string {
-- 
2.43.0


From 52d6e5e91119c294939f976a925866e3344670dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:31 +0000
Subject: [PATCH 11/31] fix: calculate correct mask for the last bit of the
 presence bitmap

When a type has the maximum number of attributes the mask of the last one was a negative number, and the
generated code didn't compile.
---
 pkg/generators/golang/types_calculator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 1e11bac..649af51 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -484,7 +484,7 @@ func (c *TypesCalculator) BitMask(attribute *concepts.Attribute) string {
 	}
 
 	// Calculate the mask:
-	mask := 1 << index
+	mask := uint64(1) << index
 	return fmt.Sprintf("%d", mask)
 }
 
-- 
2.43.0


From e024d883dc1a16386f1a432b03f50fb49cddb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:12 +0000
Subject: [PATCH 12/31] fix: generate correct code for structs without
 attributes

The function that writes the JSON representation of a struct that doesn't have attributes contained a
variable that isn't used, so the generated code didn't compile.
---
 pkg/generators/golang/json_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index d355a8c..b57db9b 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -605,7 +605,9 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 
 		// {{ $writeTypeFunc }} writes a value of the '{{ .Type.Name }}' type to the given stream.
 		func {{ $writeTypeFunc }}(object *{{ $structName }}, stream *jsoniter.Stream) {
-			count := 0
+			{{ if or .Type.IsClass .Type.Attributes }}
+				count := 0
+			{{ end }}
 			stream.WriteObjectStart()
 			{{ if .Type.IsClass }}
 				stream.WriteObjectField("kind")
-- 
2.43.0


From a131ad9e9d6bc1658fe90d4403a7cda47d5b22ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:21 +0000
Subject: [PATCH 13/31] fix: generate correct code for links to types of
 referenced versions

When a type of a referenced version is linked by some attribute and also used by other attribute, then
the types and the builders used the local type, or didn't import the referenced package, while the code
that reads and writes JSON used the referenced type. The result didn't compile.
---
 pkg/generators/golang/builders_generator.go | 20 +++++++++++++++--
 pkg/generators/golang/clients_generator.go  |  4 ++--
 pkg/generators/golang/types_calculator.go   | 10 ++++++---
 pkg/generators/golang/types_generator.go    | 24 +++++++++++++++++----
 pkg/language/reader.go                      |  7 ++++--
 5 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 643d3d1..7b8187e 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -644,7 +644,7 @@ func (g *BuildersGenerator) fieldType(attribute *concepts.Attribute) *TypeRefere
 	var ref *TypeReference
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -689,6 +689,14 @@ func (g *BuildersGenerator) fieldType(attribute *concepts.Attribute) *TypeRefere
 		)
 		ref = &TypeReference{}
 	}
+	if attribute.LinkOwner() != nil {
+		ref = g.types.Reference(
+			g.packages.VersionImport(attribute.LinkOwner()),
+			referencedVersion,
+			ref.Name(),
+			ref.Text(),
+		)
+	}
 	return ref
 }
 
@@ -712,7 +720,7 @@ func (g *BuildersGenerator) setterType(attribute *concepts.Attribute) *TypeRefer
 	var ref *TypeReference
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -757,6 +765,14 @@ func (g *BuildersGenerator) setterType(attribute *concepts.Attribute) *TypeRefer
 		)
 		ref = &TypeReference{}
 	}
+	if attribute.LinkOwner() != nil {
+		ref = g.types.Reference(
+			g.packages.VersionImport(attribute.LinkOwner()),
+			referencedVersion,
+			ref.Name(),
+			ref.Text(),
+		)
+	}
 	return ref
 }
 
diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index e13f461..6567018 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -1051,7 +1051,7 @@ func (g *ClientsGenerator) fieldType(parameter *concepts.Parameter) *TypeReferen
 	typ := parameter.Type()
 	switch {
 	case parameter.IsItems():
-		ref = g.types.ListReference(typ)
+		ref = g.types.ListReference(typ, "")
 	case typ.IsScalar() || typ.IsStruct() || typ.IsList() || typ.IsMap():
 		ref = g.types.NullableReference(typ, "")
 	}
@@ -1097,7 +1097,7 @@ func (g *ClientsGenerator) accessorType(parameter *concepts.Parameter) *TypeRefe
 	case typ.IsList() && typ.Element().IsScalar():
 		ref = g.types.NullableReference(typ, "")
 	case parameter.IsItems():
-		ref = g.types.ListReference(typ)
+		ref = g.types.ListReference(typ, "")
 	case typ.IsScalar():
 		ref = g.types.ValueReference(typ)
 	case typ.IsStruct() || typ.IsList() || typ.IsMap():
diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 649af51..86a7dd7 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -268,11 +268,11 @@ func (c *TypesCalculator) NullableReference(typ *concepts.Type, referencedVersio
 
 // ListName calculates the name of the type used to represent the given list type.
 func (c *TypesCalculator) ListName(typ *concepts.Type) string {
-	return c.ListReference(typ).Name()
+	return c.ListReference(typ, "").Name()
 }
 
 // ListReference calculates a type reference for the given list type.
-func (c *TypesCalculator) ListReference(typ *concepts.Type) *TypeReference {
+func (c *TypesCalculator) ListReference(typ *concepts.Type, referencedVersion string) *TypeReference {
 	// Check that the given type is actually a list type:
 	if !typ.IsList() {
 		c.reporter.Errorf(
@@ -291,7 +291,11 @@ func (c *TypesCalculator) ListReference(typ *concepts.Type) *TypeReference {
 		ref.name = c.names.Public(element.Name())
 	}
 	ref.name += "List"
-	ref.text = fmt.Sprintf("*%s.%s", ref.selector, ref.name)
+	if referencedVersion != "" {
+		ref.text = fmt.Sprintf("*%s.%s", referencedVersion, ref.name)
+	} else {
+		ref.text = fmt.Sprintf("*%s.%s", ref.selector, ref.name)
+	}
 	return ref
 }
 
diff --git a/pkg/generators/golang/types_generator.go b/pkg/generators/golang/types_generator.go
index 6307fb4..09864aa 100644
--- a/pkg/generators/golang/types_generator.go
+++ b/pkg/generators/golang/types_generator.go
@@ -608,7 +608,7 @@ func (g *TypesGenerator) getterType(attribute *concepts.Attribute) *TypeReferenc
 	typ := attribute.Type()
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -617,7 +617,7 @@ func (g *TypesGenerator) getterType(attribute *concepts.Attribute) *TypeReferenc
 		ref = g.types.NullableReference(typ, referencedVersion)
 	case typ.IsList():
 		if attribute.Link() {
-			ref = g.types.ListReference(typ)
+			ref = g.types.ListReference(typ, referencedVersion)
 		} else {
 			ref = g.types.NullableReference(typ, referencedVersion)
 		}
@@ -631,6 +631,14 @@ func (g *TypesGenerator) getterType(attribute *concepts.Attribute) *TypeReferenc
 		)
 		ref = &TypeReference{}
 	}
+	if attribute.LinkOwner() != nil {
+		ref = g.types.Reference(
+			g.packages.VersionImport(attribute.LinkOwner()),
+			referencedVersion,
+			ref.Name(),
+			ref.Text(),
+		)
+	}
 	return ref
 }
 
@@ -671,7 +679,7 @@ func (g *TypesGenerator) fieldType(attribute *concepts.Attribute) *TypeReference
 	typ := attribute.Type()
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -680,7 +688,7 @@ func (g *TypesGenerator) fieldType(attribute *concepts.Attribute) *TypeReference
 		ref = g.types.NullableReference(typ, referencedVersion)
 	case typ.IsList():
 		if attribute.Link() {
-			ref = g.types.ListReference(typ)
+			ref = g.types.ListReference(typ, referencedVersion)
 		} else {
 			ref = g.types.NullableReference(typ, referencedVersion)
 		}
@@ -694,6 +702,14 @@ func (g *TypesGenerator) fieldType(attribute *concepts.Attribute) *TypeReference
 		)
 		ref = &TypeReference{}
 	}
+	if attribute.LinkOwner() != nil {
+		ref = g.types.Reference(
+			g.packages.VersionImport(attribute.LinkOwner()),
+			referencedVersion,
+			ref.Name(),
+			ref.Text(),
+		)
+	}
 	return ref
 }
 
diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 5c49114..a2b448f 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -567,8 +567,11 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 					continue
 				}
 			}
-			// Otherwise add the setLinkOwner to the attribute
-			attribute.SetLinkOwner(attribute.Type().Owner())
+			// Otherwise add the setLinkOwner to the attribute, unless the type has already been
+			// added to this version:
+			if attribute.Type().Owner() != r.version {
+				attribute.SetLinkOwner(attribute.Type().Owner())
+			}
 		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
 			r.version.AddType(attribute.Type())
 			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), visited)
-- 
2.43.0


From 1ed6bbf0221a00c363fcf0573fb29762a284c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:28 +0000
Subject: [PATCH 14/31] fix: honour the value given to the link flag of
 builders

---
 pkg/generators/golang/builders_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 7b8187e..23ca097 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -242,7 +242,11 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 		{{ if .Type.IsClass }}
 			// Link sets the flag that indicates if this is a link.
 			func (b *{{ $builderName }}) Link(value bool) *{{ $builderName }} {
-				b.bitmap_ |= 1
+				if value {
+					b.bitmap_ |= 1
+				} else {
+					b.bitmap_ &^= 1
+				}
 				return b
 			}
 
-- 
2.43.0


From ec19b71e6f8f53e2e7353fb562479c11fc053156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:28 +0000
Subject: [PATCH 15/31] fix: preserve empty maps when copying objects into
 builders

---
 pkg/generators/golang/builders_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 23ca097..0cede87 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -371,7 +371,7 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 						b.{{ $fieldName }} = nil
 					}
 				{{ else if .Type.IsMap }}
-					if len(object.{{ $fieldName }}) > 0 {
+					if object.{{ $fieldName }} != nil {
 						{{ if .Type.Element.IsScalar }}
 							b.{{ $fieldName }} = {{ $fieldType }}{}
 							for k, v := range object.{{ $fieldName }} {
-- 
2.43.0


From 3e7f48e29a0f0969b36d94b52654b3c3a03692f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:08 +0000
Subject: [PATCH 16/31] fix: don't crash for errors with a nil timestamp

Setting a nil timestamp in the builder of errors marked it as present, so calculating the message of
the error crashed, and the JSON document written couldn't be read.
---
 pkg/generators/golang/errors_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index a88ecaf..a902af1 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -269,7 +269,11 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 		// Timestamp sets the moment when it happened.
 		func (b *ErrorBuilder) Timestamp(value *time.Time) *ErrorBuilder {
 			b.timestamp = value
-			b.bitmap_ |= 128
+			if value != nil {
+				b.bitmap_ |= 128
+			} else {
+				b.bitmap_ &^= 128
+			}
 			return b
 		}
 
-- 
2.43.0


From 7ef8c963249bdd5f4c0e5c5b937378a62d6fb79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:40 +0000
Subject: [PATCH 17/31] fix: avoid conflicts of parameters with the methods of
 poll requests

The poll requests have setters for the parameters of the 'Get' method, and when those parameters were
named 'status', 'interval', 'predicate' or 'start_context' the generated code didn't compile.
---
 pkg/generators/golang/clients_generator.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 6567018..2d87840 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -455,6 +455,7 @@ func (g *ClientsGenerator) generateResourceClient(resource *concepts.Resource) e
 		Function("parameterName", g.binding.QueryParameterName).
 		Function("pollRequestName", g.pollRequestName).
 		Function("pollResponseName", g.pollResponseName).
+		Function("pollSetterName", g.pollSetterName).
 		Function("readResponseFunc", g.readResponseFunc).
 		Function("requestBodyParameters", g.binding.RequestBodyParameters).
 		Function("requestName", g.requestName).
@@ -623,12 +624,13 @@ func (g *ClientsGenerator) generatePollMethodSource(resource *concepts.Resource,
 		{{ range $methodRequestParameters }}
 			{{ $setterName := setterName . }}
 			{{ $setterType := setterType . }}
+			{{ $pollSetterName := pollSetterName . }}
 
-			// {{ $setterName }} sets the value of the '{{ .Name }}' parameter for all the requests that
+			// {{ $pollSetterName }} sets the value of the '{{ .Name }}' parameter for all the requests that
 			// will be used to retrieve the object.
 			//
 			{{ lineComment .Doc }}
-			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
+			func (r *{{ $requestName }}) {{ $pollSetterName }}(value {{ $setterType }}) *{{ $requestName }} {
 				r.request.{{ $setterName }}(value)
 				return r
 			}
@@ -1086,6 +1088,10 @@ func (g *ClientsGenerator) setterName(parameter *concepts.Parameter) string {
 	return name
 }
 
+func (g *ClientsGenerator) pollSetterName(parameter *concepts.Parameter) string {
+	return avoidBuiltin(g.setterName(parameter), builtinPollSetters)
+}
+
 func (g *ClientsGenerator) setterType(parameter *concepts.Parameter) *TypeReference {
 	return g.accessorType(parameter)
 }
@@ -1274,3 +1280,10 @@ var builtinSetters = map[string]interface{}{
 	"Send":        nil,
 	"SendContext": nil,
 }
+
+var builtinPollSetters = map[string]interface{}{
+	"Interval":     nil,
+	"Predicate":    nil,
+	"StartContext": nil,
+	"Status":       nil,
+}
-- 
2.43.0


From 4b809e64554ac76a7bbac26009152b09f3d6ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:59 +0000
Subject: [PATCH 18/31] fix: don't generate the poll method for resources that
 already have it

When a resource had a 'Get' method and also its own 'Poll' method the generated client didn't compile.
---
 pkg/generators/golang/clients_generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 2d87840..98180d5 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -571,9 +571,10 @@ func (g *ClientsGenerator) generateResourceClientSource(resource *concepts.Resou
 		"Root", root,
 	)
 
-	// If the resource has a `Get` method then generate the `Poll` method:
+	// If the resource has a `Get` method then generate the `Poll` method, unless the resource already has
+	// its own `Poll` method:
 	method := resource.FindMethod(nomenclator.Get)
-	if method != nil {
+	if method != nil && resource.FindMethod(nomenclator.Poll) == nil {
 		g.generatePollMethodSource(resource, method)
 	}
 
-- 
2.43.0


From 44bdabd07eae49ef78682edb723f2708e38f3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:40 +0000
Subject: [PATCH 19/31] fix: use the JSON name of parameters in OpenAPI
 specifications

The generated clients use the name given in the @json annotation for the
parameters that travel in the body, but the OpenAPI specification ignored
the annotation.
---
 pkg/generators/openapi/names_calculator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/names_calculator.go b/pkg/generators/openapi/names_calculator.go
index 00ad681..ae3a9c2 100644
--- a/pkg/generators/openapi/names_calculator.go
+++ b/pkg/generators/openapi/names_calculator.go
@@ -90,5 +90,9 @@ func (c *NamesCalculator) AttributePropertyName(attribute *concepts.Attribute) s
 
 // ParameterPropertyName calculates the property name for an parameter of a method.
 func (c *NamesCalculator) ParameterPropertyName(parameter *concepts.Parameter) string {
-	return parameter.Name().Snake()
+	name := annotations.JSONName(parameter)
+	if name == "" {
+		name = parameter.Name().Snake()
+	}
+	return name
 }
-- 
2.43.0


From 5cc240568e7dbe50437db8da95b91c9124f31982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:40 +0000
Subject: [PATCH 20/31] fix: describe list responses as objects even if they
 contain only the items

The generated clients always expect an object with an 'items' field, but
the OpenAPI specification described an array when 'items' was the only
output parameter.
---
 pkg/generators/openapi/openapi_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 998552e..e315668 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -396,7 +396,7 @@ func (g *OpenAPIGenerator) generateResponses(method *concepts.Method) {
 		g.buffer.StartObject("content")
 		g.buffer.StartObject("application/json")
 		g.buffer.StartObject("schema")
-		if len(parameters) > 1 || method.IsAction() {
+		if len(parameters) > 1 || method.IsAction() || method.IsList() || method.IsSearch() {
 			g.buffer.Field("type", "object")
 			g.buffer.StartObject("properties")
 			for _, parameter := range parameters {
-- 
2.43.0


From 801018fa1e7851f5d0c459635eff1ff2e7ae2192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:40 +0000
Subject: [PATCH 21/31] fix: describe links to lists as objects in OpenAPI
 specifications

The generated code writes and reads links to lists as objects that contain
the items, but the OpenAPI specification described them as arrays.
---
 pkg/generators/openapi/openapi_generator.go | 37 ++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index e315668..4f04227 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -532,7 +532,42 @@ func (g *OpenAPIGenerator) generateStructProperty(attribute *concepts.Attribute)
 	name := g.names.AttributePropertyName(attribute)
 	g.buffer.StartObject(name)
 	g.generateDescription(attribute.Doc())
-	g.generateSchemaReference(attribute.Type())
+	if attribute.Link() && attribute.Type().IsList() {
+		g.generateListLink(attribute.Type())
+	} else {
+		g.generateSchemaReference(attribute.Type())
+	}
+	g.buffer.EndObject()
+}
+
+// generateListLink generates the schema of a link to a list, which isn't represented as an array but
+// as an object that contains the items.
+func (g *OpenAPIGenerator) generateListLink(typ *concepts.Type) {
+	name := g.names.SchemaName(typ.Element())
+	g.buffer.Field("type", "object")
+	g.buffer.StartObject("properties")
+
+	// Kind:
+	g.buffer.StartObject("kind")
+	g.generateDescription(fmt.Sprintf(
+		"Indicates the type of this object. Will be '%sList' if this is a complete list "+
+			"or '%sListLink' if it is just a link.",
+		name, name,
+	))
+	g.buffer.Field("type", "string")
+	g.buffer.EndObject()
+
+	// HREF:
+	g.buffer.StartObject("href")
+	g.generateDescription("Self link.")
+	g.buffer.Field("type", "string")
+	g.buffer.EndObject()
+
+	// Items:
+	g.buffer.StartObject("items")
+	g.generateSchemaReference(typ)
+	g.buffer.EndObject()
+
 	g.buffer.EndObject()
 }
 
-- 
2.43.0


From ab79d778a02eca9b770c05e035d4e62b8f414db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:04 +0000
Subject: [PATCH 22/31] fix: don't repeat the root path in OpenAPI
 specifications

When the root resource has methods that don't add their own segment the
path of the root was generated twice, once for the metadata and once for
those methods.
---
 pkg/generators/openapi/openapi_generator.go | 23 ++++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 4f04227..1a589b6 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -233,10 +233,7 @@ func (g *OpenAPIGenerator) generatePaths(version *concepts.Version) {
 	// Generate the specification:
 	g.buffer.StartObject("paths")
 
-	// Add the metadata path:
-	g.generateMetadataPath(version)
-
-	// Add the path for the root resource:
+	// Add the path for the root resource, including the operation to get the metadata:
 	empty := []*concepts.Locator{}
 	root := g.absolutePath(version, empty)
 	g.generateResourcePaths(root, empty, version.Root())
@@ -251,8 +248,7 @@ func (g *OpenAPIGenerator) generatePaths(version *concepts.Version) {
 	g.buffer.EndObject()
 }
 
-func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
-	g.buffer.StartObject(g.absolutePath(version, nil))
+func (g *OpenAPIGenerator) generateMetadataMethod() {
 	g.buffer.StartObject("get")
 	g.generateDescription("Retrieves the version metadata.")
 	g.buffer.StartObject("responses")
@@ -278,7 +274,6 @@ func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
 	g.buffer.EndObject()
 	g.buffer.EndObject()
 	g.buffer.EndObject()
-	g.buffer.EndObject()
 }
 
 func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
@@ -296,9 +291,21 @@ func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
 		}
 	}
 
+	// The path of the root of the version is also used to retrieve the metadata, unless the root
+	// resource explicitly uses it for something else:
+	metadata := len(path) == 0
+	for _, method := range without {
+		if method.IsGet() || method.IsList() {
+			metadata = false
+		}
+	}
+
 	// Methods that don't have their own URL segment share the same path object:
-	if len(without) > 0 {
+	if len(without) > 0 || metadata {
 		g.buffer.StartObject(prefix)
+		if metadata {
+			g.generateMetadataMethod()
+		}
 		for _, method := range without {
 			g.generateMethod(path, method)
 		}
-- 
2.43.0


From 6cf1a92f5af6088eb9bdcfc5253918e3219a6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 23/31] fix: include in OpenAPI specifications the schemas of
 linked types of other versions

When a type is a reference to a type of other service its links point to
types of that service that aren't part of the version, so the specification
contained references to schemas that didn't exist.
---
 pkg/generators/openapi/openapi_generator.go | 28 ++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 1a589b6..5033423 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -445,7 +445,7 @@ func (g *OpenAPIGenerator) generateComponents(version *concepts.Version) {
 	// Schemas:
 	g.buffer.StartObject("schemas")
 	g.generateMetadataSchema()
-	for _, typ := range version.Types() {
+	for _, typ := range g.schemaTypes(version) {
 		g.generateSchema(typ)
 	}
 	g.generateErrorSchema()
@@ -463,6 +463,32 @@ func (g *OpenAPIGenerator) generateComponents(version *concepts.Version) {
 	g.buffer.EndObject()
 }
 
+// schemaTypes returns the types that need a schema in the specification of the given version: those of
+// the version itself, and the ones that belong to other versions but are used by them, so that the
+// specification is self contained.
+func (g *OpenAPIGenerator) schemaTypes(version *concepts.Version) concepts.TypeSlice {
+	types := version.Types()
+	index := map[string]bool{}
+	for _, typ := range types {
+		index[g.names.SchemaName(typ)] = true
+	}
+	for i := 0; i < len(types); i++ {
+		for _, attribute := range types[i].Attributes() {
+			typ := attribute.Type()
+			for typ.IsList() || typ.IsMap() {
+				typ = typ.Element()
+			}
+			name := g.names.SchemaName(typ)
+			if (typ.IsEnum() || typ.IsStruct()) && !index[name] {
+				index[name] = true
+				types = append(types, typ)
+			}
+		}
+	}
+	sort.Sort(types)
+	return types
+}
+
 func (g *OpenAPIGenerator) generateSchema(typ *concepts.Type) {
 	switch {
 	case typ.IsEnum():
-- 
2.43.0


From 0e71e9b53b49fcbeb4345cd2e91c66c7b629ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:43 +0000
Subject: [PATCH 24/31] fix: use the JSON and HTTP names in the generated
 documentation

The documentation shows the names of attributes, parameters and enumerated
values that are used in JSON documents and URLs, but it ignored the names
given with annotations.
---
 pkg/generators/docs/docs_generator.go | 31 ++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index 1b4233e..ef20e88 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -21,6 +21,7 @@ import (
 	"strings"
 
 	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
+	"github.com/openshift-online/ocm-api-metamodel/pkg/http"
 	"github.com/openshift-online/ocm-api-metamodel/pkg/markdown"
 	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
 	"github.com/openshift-online/ocm-api-metamodel/pkg/nomenclator"
@@ -44,6 +45,7 @@ type DocsGenerator struct {
 	model    *concepts.Model
 	output   string
 	names    *markdown.NamesCalculator
+	binding  *http.BindingCalculator
 	buffer   *markdown.Buffer
 }
 
@@ -94,12 +96,21 @@ func (b *DocsGeneratorBuilder) Build() (generator *DocsGenerator, err error) {
 		return
 	}
 
+	// Create the object that will be used to do HTTP binding calculations:
+	binding, err := http.NewBindingCalculator().
+		Reporter(b.reporter).
+		Build()
+	if err != nil {
+		return
+	}
+
 	// Create the generator:
 	generator = new(DocsGenerator)
 	generator.reporter = b.reporter
 	generator.model = b.model
 	generator.output = b.output
 	generator.names = b.names
+	generator.binding = binding
 
 	return
 }
@@ -363,7 +374,25 @@ func (g *DocsGenerator) displayName(object names.Named) string {
 }
 
 func (g *DocsGenerator) tagName(object names.Named) string {
-	return g.names.Tag(object.Name())
+	switch object := object.(type) {
+	case *concepts.Attribute:
+		return g.quoteTag(g.binding.AttributeName(object))
+	case *concepts.EnumValue:
+		return g.quoteTag(g.binding.EnumValueName(object))
+	case *concepts.Parameter:
+		for _, parameter := range g.binding.RequestQueryParameters(object.Owner()) {
+			if parameter == object {
+				return g.quoteTag(g.binding.QueryParameterName(object))
+			}
+		}
+		return g.quoteTag(g.binding.BodyParameterName(object))
+	default:
+		return g.names.Tag(object.Name())
+	}
+}
+
+func (g *DocsGenerator) quoteTag(name string) string {
+	return "`" + name + "`"
 }
 
 func (g *DocsGenerator) fileName(object names.Named) string {
-- 
2.43.0


From c4d0ead5128f6e1895993d76f1a802ab6a6459df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:04 +0000
Subject: [PATCH 25/31] fix: report failures to remove the leading tabs of the
 documentation

---
 pkg/markdown/buffer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/markdown/buffer.go b/pkg/markdown/buffer.go
index e46a590..650cf8f 100644
--- a/pkg/markdown/buffer.go
+++ b/pkg/markdown/buffer.go
@@ -229,7 +229,10 @@ func (b *Buffer) Write() error {
 	}
 
 	// Remove the leading tabs:
-	b.removeTabs()
+	err = b.removeTabs()
+	if err != nil {
+		return fmt.Errorf("can't remove leading tabs: %w", err)
+	}
 
 	// Write the code:
 	_, err = b.code.WriteTo(outputFd)
-- 
2.43.0


From 2dd88a4e79b44d3ce373bf275fe018637ffd9369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:04 +0000
Subject: [PATCH 26/31] fix: fail if the temporary OpenAPI directory can't be
 removed

---
 pkg/generators/golang/openapi_generator.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/golang/openapi_generator.go b/pkg/generators/golang/openapi_generator.go
index d3097c1..8e37d3d 100644
--- a/pkg/generators/golang/openapi_generator.go
+++ b/pkg/generators/golang/openapi_generator.go
@@ -139,7 +139,7 @@ func (b *OpenAPIGeneratorBuilder) Build() (generator *OpenAPIGenerator, err erro
 }
 
 // Run executes the code generator.
-func (g *OpenAPIGenerator) Run() error {
+func (g *OpenAPIGenerator) Run() (result error) {
 	// Create a temporary directory to write the OpenAPI JSON to, and remember to delete it:
 	jsonDir, err := os.MkdirTemp("", "openapi")
 	if err != nil {
@@ -148,10 +148,13 @@ func (g *OpenAPIGenerator) Run() error {
 	defer func() {
 		err := os.RemoveAll(jsonDir)
 		if err != nil {
-			g.reporter.Errorf(
+			err = g.reporter.Errorf(
 				"Can't remove temporary OpenAPI directory '%s': %v",
 				jsonDir, err,
 			)
+			if result == nil {
+				result = err
+			}
 		}
 	}()
 
-- 
2.43.0


From ea8d8b3e1c3585275abb7c262ad5de6f49957402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:04 +0000
Subject: [PATCH 27/31] fix: report failures to write the header of generated
 Go files

---
 pkg/generators/golang/buffer.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pkg/generators/golang/buffer.go b/pkg/generators/golang/buffer.go
index 26044b0..cc904af 100644
--- a/pkg/generators/golang/buffer.go
+++ b/pkg/generators/golang/buffer.go
@@ -329,27 +329,28 @@ func (b *Buffer) Write() error {
 		return fmt.Errorf("can't open output file '%s': %w", b.file, err)
 	}
 
-	// Write the header:
-	fmt.Fprintf(outputFd, "%s\n", fileHeader)
-	fmt.Fprintf(outputFd, "\n")
+	// Prepare the header:
+	header := new(bytes.Buffer)
+	fmt.Fprintf(header, "%s\n", fileHeader)
+	fmt.Fprintf(header, "\n")
 
-	// Write the package statement:
+	// Add the package statement:
 	pkgName := b.cleanPkg(path.Base(b.pkg))
-	fmt.Fprintf(outputFd, "package %s // %s\n", pkgName, b.pkg)
-	fmt.Fprintf(outputFd, "\n")
+	fmt.Fprintf(header, "package %s // %s\n", pkgName, b.pkg)
+	fmt.Fprintf(header, "\n")
 
-	// Write the import statement:
+	// Add the import statement:
 	if len(b.imports) > 0 {
-		fmt.Fprintf(outputFd, "import (\n")
+		fmt.Fprintf(header, "import (\n")
 		for imprt, selector := range b.imports {
 			if selector != "" {
-				fmt.Fprintf(outputFd, "%s \"%s\"\n", selector, imprt)
+				fmt.Fprintf(header, "%s \"%s\"\n", selector, imprt)
 			} else {
-				fmt.Fprintf(outputFd, "\"%s\"\n", imprt)
+				fmt.Fprintf(header, "\"%s\"\n", imprt)
 			}
 		}
-		fmt.Fprintf(outputFd, ")\n")
-		fmt.Fprintf(outputFd, "\n")
+		fmt.Fprintf(header, ")\n")
+		fmt.Fprintf(header, "\n")
 	}
 
 	// Remove extra blank lines from the code:
@@ -358,7 +359,11 @@ func (b *Buffer) Write() error {
 		return fmt.Errorf("can't remove extra blank lines: %w", err)
 	}
 
-	// Write the code:
+	// Write the header and the code:
+	_, err = header.WriteTo(outputFd)
+	if err != nil {
+		return fmt.Errorf("can't write header to file '%s': %w", b.file, err)
+	}
 	_, err = b.code.WriteTo(outputFd)
 	if err != nil {
 		return fmt.Errorf("can't write generated code to file '%s': %w", b.file, err)
-- 
2.43.0


From 4bbb32bbf3cac7714ecf8828705e61320dd2df36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 28/31] fix: Don't add to the index links to pages that aren't
 generated

---
 pkg/generators/docs/docs_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index ef20e88..161b037 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -205,7 +205,9 @@ func (g *DocsGenerator) documentIndex() {
 		{{ range .Model.Services }}
 			{{ range .Versions }}
 				{{ range .Types }}
-					[{{ displayName . }}]({{ resourceFile . }}.md)
+					{{ if or .IsEnum .IsStruct }}
+						[{{ displayName . }}]({{ resourceFile . }}.md)
+					{{ end }}
 				{{ end }}
 			{{ end }}
 		{{ end }}
-- 
2.43.0


From 6841413d1d34f3e1aaa232fc13cb77c2944c88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 29/31] fix: Line breaks and pipes in summaries break the
 tables of the documentation

---
 pkg/generators/docs/docs_generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index 161b037..bc9d54e 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -441,8 +441,11 @@ func (g *DocsGenerator) docSummary(object concepts.Documented) string {
 	index := strings.IndexRune(doc, '.')
 	if index != -1 {
 		doc = doc[0 : index+1]
-		doc = strings.ReplaceAll(doc, "\n", "")
 	}
 
+	// The summary is placed in a cell of a table, so it can't contain line breaks or pipes:
+	doc = strings.Join(strings.Fields(doc), " ")
+	doc = strings.ReplaceAll(doc, "|", `\|`)
+
 	return doc
 }
-- 
2.43.0


From c70f6d3f8ef4fbc57846b71fdc67e0042f2bd7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 30/31] fix: Links to explicitly referenced classes depend on
 the order of declarations

---
 pkg/language/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index a2b448f..e385346 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -460,9 +460,10 @@ func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 		for _, attribute := range types.Attributes() {
 			// It could be that the type is already in an attribute of the service
 			// It needs to add the SetExplicitDeclared to it. {
-			if attribute.Type().Name() == typ.Name() {
+			if attribute.Type().Name().Equals(typ.Name()) {
 				attribute.SetLinkOwner(nil)
 				attribute.Type().SetExplicitDeclared(true)
+				attribute.Type().SetOwner(typ.Owner())
 			}
 			if attribute.Type().IsList() || attribute.Type().IsMap() {
 				if attribute.Type().Element().Name().String() == typ.Name().String() {
-- 
2.43.0


From 0499bd91a11acb9c207a8487f3a6967f485773d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 31/31] fix: Classes can't be explicitly referenced after being
 imported by other reference

---
 pkg/language/reader.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index e385346..94e54fc 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -57,6 +57,9 @@ type Reader struct {
 	undefinedTypes     map[string]*concepts.Type
 	undefinedResources map[string]*concepts.Resource
 	undefinedErrors    map[string]*concepts.Error
+
+	// Types that have been added to versions because they are used by referenced types:
+	importedTypes map[*concepts.Type]bool
 }
 
 // NewReader creates an object that knows how to read  a model from a set of files. Typical usage is
@@ -110,6 +113,7 @@ func (r *Reader) Read() (model *concepts.Model, err error) {
 	r.undefinedTypes = make(map[string]*concepts.Type)
 	r.undefinedResources = make(map[string]*concepts.Resource)
 	r.undefinedErrors = make(map[string]*concepts.Error)
+	r.importedTypes = make(map[*concepts.Type]bool)
 
 	// Load the potentially partial representations of the model from the source files:
 	if r.inputs != nil {
@@ -425,6 +429,13 @@ func (r *Reader) ExitClassDecl(ctx *ClassDeclContext) {
 	} else if r.isUndefinedType(typ) {
 		typ.SetKind(concepts.ClassType)
 		r.removeUndefinedType(typ)
+	} else if r.importedTypes[typ] && !typ.ExplicitDeclared() && r.isReference(ctx.GetAnnotations()) {
+		// The type was added because it is used by other referenced type, and now it is
+		// explicitly referenced:
+		typ = concepts.NewType()
+		typ.SetKind(concepts.ClassType)
+		typ.SetName(name)
+		r.version.AddType(typ)
 	} else {
 		r.reporter.Errorf("Type '%s' is already defined", name)
 		return
@@ -455,6 +466,14 @@ func (r *Reader) ExitClassDecl(ctx *ClassDeclContext) {
 	}
 }
 
+// isReference checks if the given annotations indicate that the type is a reference to a type of other
+// service.
+func (r *Reader) isReference(ctxs []IAnnotationContext) bool {
+	typ := concepts.NewType()
+	r.addAnnotations(typ, ctxs)
+	return annotations.ReferencePath(typ) != ""
+}
+
 func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 	for _, types := range r.version.Types() {
 		for _, attribute := range types.Attributes() {
@@ -586,7 +605,7 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 		referencedType.SetExplicitDeclared(true)
 	}
 	r.version.AddType(referencedType)
-
+	r.importedTypes[referencedType] = true
 }
 
 func (r *Reader) ExitStructDecl(ctx *StructDeclContext) {
-- 
2.43.0


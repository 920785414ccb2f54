package checks

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/tool/engine"
	"verif/tool/mm"
	"verif/tool/spec"
)

type interp = engine.Interp

// genCache contains the models that have been generated.
type genCache struct {
	shapes []*shape
	prog   *engine.Program
	it     *engine.Interp
	base   *engine.State
}

// shape is a model used to generate code.
type shape struct {
	name  string
	files map[string]string
	// Spec is the meaning of the model.
	Spec *spec.Model
	// Go, OpenAPI and Docs are the files generated, or nil if the generation isn't possible.
	Go, OpenAPI, Docs map[string]string
	unit              *engine.Unit
	problems          []string
}

// allBasic are the basic types.
var allBasic = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface"}

// attributeKinds returns the declarations of attributes of all the kinds.
func attributeKinds() (r []string) {
	types := append(append([]string{}, allBasic...), "Color", "Part", "Piece")
	i := 0
	add := func(kind, typ string) {
		i++
		r = append(r, fmt.Sprintf("%sa%s%s %s", kind, string(rune('a'+i/26)), string(rune('a'+i%26)), typ))
	}
	for _, t := range types {
		add("", t)
		add("", "[]"+t)
		add("", "[String]"+t)
	}
	for _, t := range []string{"Part", "Piece"} {
		add("link ", t)
		add("link ", "[]"+t)
	}
	return
}

const partsText = `
class Part {
  Name String
  Number Integer
}

struct Piece {
  Label String
  Weight Float
  Flag Boolean
}

enum Color {
  Red
  DarkBlue
  @json(name="GREEN")
  Green
}
`

// crudText declares a resource with all the categories of methods.
const crudText = `
resource Things {
  method List {
    in out Page Integer = 1
    in out Size Integer = 100
    in Filter String
    in Since Date
    in Deep Boolean
    in Limit Long
    in Ratio Float
    in Tint Color
    out Total Integer
    out Items []Thing
  }
  method Add {
    in DryRun Boolean
    in out Body Thing
  }
  method Search {
    in Body Piece
    in Filter String
    in out Page Integer = 1
    in out Size Integer = 100
    out Total Integer
    out Items []Thing
  }
  locator Thing {
    variable ID
    target Thing
  }
  locator Parts {
    target Parts
  }
}

resource Thing {
  method Get {
    in Filter String
    in Deep Boolean
    out Body Thing
  }
  method Update {
    in Force Boolean
    in out Body Thing
  }
  method Delete {
    in Force Boolean
    in Reason String
  }
  locator Parts {
    target Parts
  }
}

resource Parts {
  method List {
    out Items []Part
  }
  method Add {
    in out Body Part
  }
  method Post {
    in Request Piece
    out Response Part
  }
  locator Part {
    variable ID
    target Part
  }
}

resource Part {
  method Get {
    out Body Part
  }
  method AsyncDelete {
    in Deadline Date
  }
  method AsyncUpdate {
    in out Body Part
  }
  method Restart {
  }
  method Resize {
    in Amount Integer
    in out Label String
    in out Part Part
    in out Pieces []Piece
    out Result Boolean
  }
}
`

// actionText declares a resource with actions with parameters of all the types and directions.
func actionText() string {
	var sb strings.Builder
	sb.WriteString("resource Actions {\n")
	types := append(append([]string{}, allBasic...), "Color", "Part", "Piece")
	for _, dir := range []string{"in", "out", "in out"} {
		n := strings.Title(strings.ReplaceAll(dir, " ", ""))
		fmt.Fprintf(&sb, "  method All%s {\n", n)
		for _, t := range types {
			fmt.Fprintf(&sb, "    %s Plain%s %s\n    %s List%s []%s\n    %s Map%s [String]%s\n", dir, t, t, dir, t, t, dir, t, t)
		}
		sb.WriteString("  }\n")
		for _, t := range types {
			for _, f := range []string{"%s", "[]%s", "[String]%s"} {
				fmt.Fprintf(&sb, "  method One%s%s%s {\n    %s Value %s\n  }\n", n, t, map[string]string{"%s": "", "[]%s": "List", "[String]%s": "Map"}[f], dir, fmt.Sprintf(f, t))
			}
		}
	}
	sb.WriteString("}\n")
	return strings.ReplaceAll(sb.String(), " Value ", " Datum ")
}

func rootWith(locators ...string) string {
	var sb strings.Builder
	sb.WriteString("resource Root {\n")
	for _, l := range locators {
		fmt.Fprintf(&sb, "  locator %s {\n    target %s\n  }\n", l, l)
	}
	sb.WriteString("}\n")
	return sb.String()
}

func manyAttributes(kind, name string, n int, first string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s %s {\n", kind, name)
	for i := 0; i < n; i++ {
		t := []string{"String", "Integer", "Boolean", "Date", "[]String", "Part", "Color"}[i%7]
		fmt.Fprintf(&sb, "  %s%s%s %s\n", first, string(rune('a'+i/26)), string(rune('a'+i%26)), t)
	}
	sb.WriteString("}\n")
	return sb.String()
}

// goKeywords are the Go reserved words and predeclared identifiers that can be used as names.
var goKeywords = []string{
	"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto",
	"if", "import", "interface", "map", "package", "range", "return", "select", "switch", "type", "var",
}

var goPredeclared = []string{
	"append", "bool", "byte", "cap", "close", "copy", "delete", "float64", "int", "len", "make", "new", "nil", "panic", "string", "true", "false", "iota", "any",
}

func isModelWord(w string) bool {
	switch w {
	case "true", "false", "in", "out", "link", "value", "code", "class", "enum", "error", "struct", "resource", "method", "locator", "target", "variable", "parameter", "attribute":
		return true
	}
	return false
}

func keywordText() string {
	var attrs, params, values, methods, locators strings.Builder
	for i, w := range goKeywords {
		t := []string{"String", "Integer", "[]String", "Part", "[]Part", "Date", "[String]String", "Color"}[i%8]
		fmt.Fprintf(&attrs, "  %s %s\n", w, t)
		fmt.Fprintf(&params, "    in out %s %s\n", w, t)
		fmt.Fprintf(&values, "  %s\n", w)
		fmt.Fprintf(&methods, "  method %s {\n    in Number Integer\n  }\n", w)
		fmt.Fprintf(&locators, "  locator %s {\n    target Leaf\n  }\n", w)
	}
	r := rootWith("Keywords", "Branch") + partsText +
		"class Keyword {\n" + attrs.String() + "}\nstruct KeywordStruct {\n" + attrs.String() + "}\nenum KeywordEnum {\n" + values.String() + "}\n" +
		"resource Keywords {\n" + methods.String() + "  method All {\n" + params.String() + "  }\n}\nresource Leaf {\n}\nresource Branch {\n" + locators.String() + "}\n"
	for _, w := range []string{"Map", "Interface", "Type", "Range", "Func"} {
		r += "class " + w + "{\n  Name String\n}\n"
	}
	return strings.ReplaceAll(r, "class Interface{\n  Name String\n}\n", "")
}

// builtinText uses as names of parameters the names of the things that the clients always have.
func builtinText() string {
	var sb strings.Builder
	sb.WriteString(rootWith("Bases", "Watched", "Polled") + partsText + "resource Bases {\n")
	w := func(dir string, words ...string) {
		for i, n := range words {
			t := []string{"String", "Integer", "[]String", "Part", "Date", "[String]String", "Color", "Boolean"}[i%8]
			fmt.Fprintf(&sb, "    %s %s %s\n", dir, n, t)
		}
	}
	sb.WriteString("  method Go {\n")
	w("in", "Status", "Err", "Error", "Path", "Query", "Header", "Transport", "Send", "Parameter", "Impersonate", "Request", "Response", "Result", "Context", "Buffer", "Reader", "Ctx", "Uri")
	sb.WriteString("  }\n  method Back {\n")
	w("out", "Status", "Err", "Error", "Path", "Query", "Header", "Transport", "Send", "Parameter", "Impersonate", "Request", "Response", "Result", "Context", "Buffer", "Reader", "Ctx", "Uri")
	sb.WriteString("  }\n  method Both {\n")
	w("in out", "Status", "Err", "Error", "Path", "Query", "Header", "Stream", "Iterator", "Field", "Object", "Count", "Text", "Keys", "Key", "Item", "Items", "Body")
	sb.WriteString("  }\n}\n")
	// Methods that have the names of the methods added for polling:
	sb.WriteString("resource Watched {\n  method Get {\n")
	for i, n := range []string{"Status", "Interval", "Predicate", "StartContext", "Task", "Request", "Response", "Error", "Header", "Send", "Parameter"} {
		fmt.Fprintf(&sb, "    in %s %s\n", n, []string{"String", "Integer", "Boolean", "Date", "Color"}[i%5])
	}
	sb.WriteString("    out Body Part\n  }\n}\n")
	sb.WriteString("resource Polled {\n  method Get {\n    out Body Part\n  }\n  method Poll {\n    in Amount Integer\n    out Part Part\n  }\n}\n")
	sb.WriteString("struct Words {\n")
	for i, n := range []string{"Object", "Count", "Field", "Iterator", "Stream", "Value", "Values", "Present", "Text", "Key", "Keys", "Item", "Items", "Err", "Bitmap", "Ok", "String", "Time", "Helpers", "Jsoniter", "Sort"} {
		t := []string{"String", "Integer", "[]String", "Part", "Date", "[String]String", "Color", "[]Part", "[String]Piece", "Boolean", "Interface"}[i%11]
		if isModelWord(strings.ToLower(n)) {
			continue
		}
		fmt.Fprintf(&sb, "  %s %s\n", n, t)
	}
	sb.WriteString("}\n")
	return sb.String()
}

// shapes returns the models used to generate code.
func (c *Ctx) makeShapes() (r []*shape) {
	add := func(name string, f map[string]string) {
		m := spec.Of(f)
		s := &shape{name: name, files: f, Spec: m}
		if len(m.Problems) > 0 {
			panic(fatal{fmt.Sprintf("shape %s isn't correct: %v", name, m.Problems)})
		}
		r = append(r, s)
	}
	kinds := strings.Join(attributeKinds(), "\n  ")
	add("kinds", files("svc/v1/a.model", rootText+partsText+"class Everything {\n  "+kinds+"\n}\n\nstruct Bundle {\n  "+kinds+"\n}\n"))
	add("crud", files("my_service/v1/a.model", rootWith("Things", "Parts")+partsText+crudText+"class Thing {\n  Name String\n  Parts []Part\n}\nerror NotFound {\n  code 4\n}\nerror Conflict {\n  code 9\n}\nerror Gone {\n  code 10\n}\nerror TooLong {\n  code 64\n}\nerror TooLarge {\n  code 100064\n}\n"))
	add("actions", files("svc/v1/a.model", rootWith("Actions")+partsText+actionText()))
	add("keywords", files("svc/v1/a.model", keywordText()))
	add("builtin", files("svc/v1/a.model", builtinText()))
	add("minimal", files("svc/v1/a.model", rootText))
	sizes := rootText + partsText
	for i, n := range []int{0, 1, 2, 28, 29, 30, 31, 32, 33, 60, 61, 62, 63, 64} {
		w := string(rune('a' + i))
		sizes += manyAttributes("struct", "Size"+w, n, "x")
		// Classes use three bits for the built-in attributes:
		if n <= 61 {
			sizes += manyAttributes("class", "Klass"+w, n, "y")
		}
	}
	add("sizes", files("svc/v1/a.model", sizes))
	add("annotations", files("svc/v1/a.model", annotatedText))
	add("versions", files(
		"first_service/v1/a.model", rootWith("Things")+partsText+"class Thing {\n  Part Part\n}\n"+treeText,
		"first_service/v2/a.model", rootWith("Things")+partsText+"class Thing {\n  Piece Piece\n}\n"+treeText+"error Two {\n  code 2\n}\nerror Ten {\n  code 10\n}\n",
		"second_service/v1/a.model", rootWith("Things")+partsText+"class Thing {\n  Color Color\n}\n"+treeText+"error One {\n  code 1\n}\n",
		"second_service/v1_alpha1/a.model", rootWith("Things")+partsText+"class Thing {\n  Colors []Color\n}\n"+treeText,
	))
	add("references", files(
		"aaa/v1/a.model", rootWith("Things")+"@ref(path=\"mmm/v2/thing\")\nclass Thing {\n}\n"+treeText,
		"mmm/v2/a.model", rootWith("Things")+partsText+"class Thing {\n  Name String\n  Part Part\n  Parts []Part\n  Index [String]Piece\n  Tint Color\n  Tints []Color\n  link Other Part\n  link Others []Part\n}\n"+treeText,
	))
	add("same", files(
		"aaa/v1/a.model", rootWith("Things")+"@ref(path=\"mmm/v1/thing\")\nclass Thing {\n}\n@ref(path=\"mmm/v1/other\")\nclass Other {\n}\n"+treeText,
		"mmm/v1/a.model", rootWith("Things")+partsText+"class Other {\n  Parts []Part\n  link Alone Lonely\n  link Alones []Lonely\n}\nclass Lonely {\n  Name String\n  link Back Other\n}\n"+
			"class Thing {\n  Alpha []Part\n  link Beta Part\n  link Gamma []Part\n  link Delta Other\n  link Deltas []Other\n  Name String\n  Pieces [String]Piece\n  link Alone Lonely\n  link Alones []Lonely\n}\n"+treeText,
	))
	// References to classes that use many other types, and uses of those classes:
	add("closure", files(
		"aaa/v1/a.model", rootWith("Things")+closureUsers("First")+"@ref(path=\"/mmm/v1/delta\")\nclass Delta {\n}\n@ref(path=\"/mmm/v1/thing\")\nclass Thing {\n}\n"+
			"@ref(path=\"/mmm/v1/beta\")\nclass Beta {\n}\n@ref(path=\"/mmm/v1/far\")\nclass Far {\n}\n"+closureUsers("Second")+treeText,
		"aaa/v1/z.model", closureUsers("Third"),
		"mmm/v1/a.model", rootWith("Things")+closureText+treeText,
	))
	add("bodies", files("svc/v1/a.model", rootWith("Alphas", "Betas", "Gammas", "Deltas")+partsText+bodiesText))
	add("gonames", files("svc/v1/a.model", goNamesText, "other/v1/a.model", rootText))
	add("roots", files("svc/v1/a.model", partsText+`
resource Root {
  method Ping {
    in Amount Integer
    out Part Part
  }
  method Add {
    in DryRun Boolean
    in out Body Part
  }
  method List {
    in Filter String
    out Items []Part
  }
  locator Part {
    variable ID
    target Part
  }
}
resource Part {
  method Get {
    out Body Part
  }
}
`))
	// A tree where the resources have several locators at each of several levels:
	deep := "resource Root {\n  locator Aaa {\n    target Level2\n  }\n  locator Bbb {\n    variable ID\n    target Level2\n  }\n}\n"
	for i, n := range []string{"Two", "Three", "Four", "Five", "Six"} {
		next := []string{"Three", "Four", "Five", "Six", ""}[i]
		deep += "resource " + n + " {\n  method Check" + n + " {\n  }\n"
		if next != "" {
			deep += "  locator " + n + "A {\n    target " + next + "\n  }\n  locator " + n + "B {\n    variable ID\n    target " + next + "\n  }\n"
		}
		deep += "}\n"
	}
	add("deep", files("svc/v1/a.model", strings.ReplaceAll(deep, "Level2", "Two")))
	add("separate", files("svc/v1/a.model", rootWith("Ones", "Twos", "Threes", "Fours", "Fives", "Sixes", "Sevens")+partsText+separateText))
	add("documented", files("svc/v1/a.model", documentedText))
	add("initialisms", files("svc/v1/a.model", rootWith("CPUs", "AWSAccounts")+`
class CPU {
  IDCode String
  AWSAccountID String
  NodeIDs []String
  URL String
  ExternalURLs [String]String
  Owner AWSAccount
}
class AWSAccount {
  CPUs []CPU
  BYOC Boolean
}
enum HTTPMethod {
  GET
  HTTPPost
}
resource CPUs {
  method List {
    in OrderByID String
    out Items []CPU
  }
  locator CPU {
    variable ID
    target CPU
  }
}
resource CPU {
  method Get {
    out Body CPU
  }
  method ResetURLs {
    in URL String
    out NewURLs []String
    in out HTTPMethod HTTPMethod
  }
}
resource AWSAccounts {
  method Add {
    in out Body AWSAccount
  }
}
error HTTPTimeout {
  code 408
}
`))
	return
}

// separateText declares methods of all the categories without two that use the same HTTP method and path.
const separateText = `
resource Ones {
  method Search {
    in Body Piece
    in Filter String
    in out Page Integer = 1
    in out Size Integer = 100
    out Total Integer
    out Items []Part
  }
  locator One {
    variable ID
    target One
  }
}
resource One {
  method Get {
    in Since Date
    in Tint Color
    out Body Part
  }
  method Update {
    in Force Boolean
    in out Body Part
  }
  method Delete {
    in Reason String
  }
  locator Twos {
    target Twos
  }
}
resource Twos {
  method Post {
    in Request Piece
    out Response Part
  }
  method List {
    in Filter String
    in Ratio Float
    in Limit Long
    in out Page Integer = 1
    in out Size Integer = 100
    out Total Integer
    out Items []Part
  }
  method Launch {
    in Body Part
    in Count Integer
    in Pieces []Piece
    in Index [String]Color
    out Items []Part
    out Result String
  }
  locator Three {
    variable ID
    target Threes
  }
}
resource Threes {
  method AsyncUpdate {
    in Force Boolean
    in out Body Piece
  }
  method AsyncDelete {
    in Force Boolean
  }
  method Add {
    in Mode String
    in out Body Piece
  }
}
resource Fours {
  method Add {
    in out Body Part
  }
  method List {
    out Items []Part
  }
  method Stop {
  }
  method StopAll {
    out Stopped Integer
  }
  locator Four {
    variable ID
    target Ones
  }
}
resource Fives {
  method Post {
    in out Body Part
  }
}
resource Sixes {
  method Search {
    in Body Part
    out Items []Piece
  }
  method List {
    in Order String
    out Items []String
  }
  method Check {
    in Input Part
    out Output Piece
  }
  method Count {
    in Any Interface
    out Number Long
  }
}
resource Sevens {
  method Post {
    in First Part
    out Third Part
  }
  method Delete {
  }
}
`

// documentedText contains documentation for all the concepts, with characters that have a meaning in the
// generated artifacts.
var documentedText = strings.ReplaceAll(`
// Root "quoted" resource.
// LONG
//
// Second paragraph with \\ and \t and <b> & é 日本.
resource Root {
  // LONG
  // Locator /* of */ things */ // and more.
  locator Things {
    target Things
  }
  // Locator of one thing | with variable.
  // LONG
  locator Single {
    variable ID
    target Single
  }
}

// Resource of one thing.
resource Single {
  // Gets the thing.
  // LONG
  method Get {
    // Depth of the "thing".
    // LONG
    in Depth Integer
    // LONG
    // Body \ of the thing.
    out Body Thing
  }
  // Changes the thing.
  method Update {
    // Tells if | should be {{ done }}.
    in DryRun Boolean
    // New content.
    // LONG
    in out Body Thing
  }
  // Removes
  method Delete {
    // Reason
    in Reason String
  }
}

// Resource of things.  Has 100% of {{ braces }} and | pipes |.
resource Things {
  // Lists the "things".
  // LONG
  //
  // Uses 'quotes', commas, [links](http://example.com) and *stars*.
  method List {
    // Index of the page.  {{ .Page }}
    in out Page Integer = 1
    // Size %d %s of the page.
    in out Size Integer = 100
    // LONG
    // Filter with \n escapes \" and such.
    in Filter String
    // Total.
    out Total Integer
    // Items
    //
    //   - indented
    out Items []Thing
  }
  // Action without dot
  // LONG
  method Restart {
    // Multiple
    // lines "of" text
    in Amount Integer
    // {{ end }}
    out Result Boolean
  }
}

// Thing */ is a /* thing.
//
// //go:build ignore
// LONG
class Thing {
  // LONG
  // Name of the "thing" with \\backslash\\.
  Name String
  // {{ if .Type }}.
  Box Box
  // 1. First
  // 2. Second
  //
  // +build ignore
  link Boxes []Thing
  // Empty:
  //
  //
  Color Color
}

// LONG
// Box % of \x00 things
struct Box {
  // é
  Label String
}

// Colors; "red" and 'blue'.
// LONG
enum Color {
  // LONG
  // Red, like #f00.
  Red
  // Blue | green
  Blue
}

// Failure "one".
// LONG
error Failure {
  code 1
}
`, "// LONG\n", strings.Repeat("// And more text.\n", 50))

// bodiesText declares methods with the less frequent kinds of bodies and parameters.
const bodiesText = `
resource Alphas {
  method List {
    in Any Interface
    in out Extra String
    out Count Integer
    out Items []Piece
  }
  method Search {
    in Body Part
    in out Extra String
    out Items []Part
  }
  method Post {
    out Body Piece
  }
  method Add {
    in Any Interface
    in Tint Color
    in Since Date
    in out Body Piece
  }
  method Update {
    in out Body []Part
  }
}
resource Betas {
  method Post {
    in out Body Part
  }
  method Update {
    in out Body Piece
  }
  method List {
    out Items []String
  }
  method Get {
    out Body Piece
  }
  method AsyncUpdate {
    in Number Integer
    in out Body []String
  }
}
resource Gammas {
  method List {
    in out Size Integer = 100
    in out Page Integer = 1
    out Items []Color
    out Total Integer
  }
  method Search {
    in Body Piece
    out Items []Integer
    in out Page Integer = 1
  }
  method Post {
    in Input Part
    out Output Piece
  }
  method Delete {
    in Tint Color
    in Since Date
    in Ratio Float
    in Big Long
  }
  method AsyncDelete {
  }
}
resource Deltas {
  method Update {
    in out Body []Piece
  }
  method List {
    out Items []Date
  }
}
`

// goNamesText uses annotations to change the Go names of everything.
const goNamesText = `
@go(name="GoRoot")
resource Root {
  locator Things {
    target Things
  }
  @go(name="GoPlaces")
  locator Places {
    target Places
  }
}
@go(name="GoThingsResource")
resource Things {
  @go(name="GoList")
  method List {
    @go(name="GoPage")
    in out Page Integer = 1
    @go(name="GoFilter")
    in Filter String
    out Total Integer
    @go(name="GoItems")
    out Items []Thing
  }
  @go(name="GoRestart")
  method Restart {
    @go(name="GoAmount")
    in Amount Integer
    @go(name="GoLabel")
    in out Label String
    @go(name="GoThingParameter")
    in out Thing Thing
    @go(name="GoThingsParameter")
    in out Things []Thing
    @go(name="GoBoxes")
    in out Boxes [String]Box
    @go(name="GoTints")
    in out Tints []Tint
    out Moment Date
  }
  @go(name="GoAdd")
  method Add {
    @go(name="GoBody")
    in out Body Thing
  }
  @go(name="GoThing")
  locator Thing {
    variable ID
    target Thing
  }
}
resource Thing {
  method Get {
    out Body Thing
  }
  method Update {
    in out Body Thing
  }
  @go(name="GoStop")
  method Stop {
  }
}
resource Places {
  method Post {
    @go(name="GoRequest")
    in Request Box
    @go(name="GoResponse")
    out Response Box
  }
  method Search {
    in Body Box
    out Items []Box
  }
}
@go(name="GoThing")
class Thing {
  @go(name="GoFirst")
  First String
  Second Box
  @go(name="GoThird")
  Third []Thing
  Fourth [String]Thing
  @go(name="GoFifth")
  link Fifth Thing
  link Sixth []Thing
  @go(name="GoSeventh")
  Seventh Tint
  Eighth []Tint
  Ninth [String]Box
}
@go(name="GoBox")
struct Box {
  @go(name="GoInner")
  Inner Box
  Tint Tint
}
@go(name="GoTint")
enum Tint {
  @go(name="GoRed")
  Red
  Blue
}
@go(name="GoFailure")
error Failure {
  code 7
}
`

// treeText declares a tree of resources where some are reachable in several ways.
const treeText = `
resource Things {
  method List {
    in out Page Integer = 1
    in out Size Integer = 100
    out Total Integer
    out Items []Thing
  }
  locator Thing {
    variable ID
    target Thing
  }
  locator Favorite {
    target Thing
  }
}

resource Thing {
  method Get {
    out Body Thing
  }
  method Poke {
  }
  locator Leaf {
    target Leaf
  }
  locator OtherLeaf {
    variable ID
    target Leaf
  }
}

resource Leaf {
  method Get {
    out Body Thing
  }
}
`

// annotatedText uses annotations in all the places where they have a meaning.
const annotatedText = `
resource Root {
  @http(name="http_things")
  @go(name="GoThings")
  locator Things {
    target Things
  }
  @json(name="ignored")
  locator Plain {
    target Plain
  }
}

resource Things {
  method List {
    @http(name="http_page")
    in out Page Integer = 1
    @json(name="json_size")
    in out Size Integer = 100
    @http(name="http_filter")
    @json(name="json_filter")
    in Filter String
    out Total Integer
    out Items []Thing
  }
  @http(name="http_restart")
  method Restart {
    @json(name="json_amount")
    in Amount Integer
    @http(name="http_ignored")
    in Label String
    @json(name="json_result")
    out Result Boolean
    @json(name="json_thing")
    in out Thing Thing
  }
  @http(name="http_thing")
  locator Thing {
    variable ID
    target Thing
  }
}

resource Thing {
  method Get {
    @http(name="http_deep")
    in Deep Boolean
    out Body Thing
  }
}

resource Plain {
  @json(name="ignored")
  method Restart {
  }
}

class Thing {
  @json(name="json_plain")
  Plain String
  @json(name="json_list")
  List []Integer
  @json(name="json_map")
  Map [String]Thing
  @json(name="json_other")
  @go(name="GoOther")
  Other Thing
  @json(name="json_link")
  link Links []Thing
  @go(name="GoTint")
  Tint Color
  @http(name="http_ignored")
  Ignored String
  @json(name="json_date")
  When Date
}

struct Box {
  @json(name="json_first")
  First String
  @go(name="GoSecond")
  Second Integer
  Third Boolean
}

enum Color {
  @json(name="RED")
  Red
  @go(name="GoBlue")
  Blue
  @http(name="http_ignored")
  DarkGreen
}
`

// generate runs the generators for all the shapes.
func (c *Ctx) generate(cmds ...string) []*shape {
	c.S()
	if c.gen.shapes == nil {
		c.gen.shapes = c.makeShapes()
	}
	type job struct {
		s   *shape
		cmd string
	}
	var jobs []job
	for _, s := range c.gen.shapes {
		for _, cmd := range cmds {
			jobs = append(jobs, job{s, cmd})
		}
	}
	c.Parallel(len(jobs), func(i int) {
		s, cmd := jobs[i].s, jobs[i].cmd
		out := c.generateShape(s, cmd)
		c.mu.Lock()
		defer c.mu.Unlock()
		switch cmd {
		case "golang":
			s.Go = out
		case "openapi":
			s.OpenAPI = out
		case "docs":
			s.Docs = out
		}
	})
	return c.gen.shapes
}

func (c *Ctx) generateShape(s *shape, cmd string) map[string]string {
	rs, it, err := c.S().Run("generate/"+cmd, mm.Input{Files: s.files, Flags: map[string]interface{}{"base": "gen/" + s.name}})
	c.Note(it)
	c.Count("generations analysed", 1)
	fail := func(format string, args ...interface{}) map[string]string {
		c.mu.Lock()
		s.problems = append(s.problems, cmd+": "+fmt.Sprintf(format, args...))
		c.mu.Unlock()
		return nil
	}
	switch {
	case err != nil:
		c.Undecided("generation of %s for shape %s: %v", cmd, s.name, err)
		return nil
	case c.imprecise(it, cmd+" "+s.name):
		return nil
	case len(rs) != 1:
		c.Undecided("generation of %s for shape %s has %d outcomes", cmd, s.name, len(rs))
		return nil
	case rs[0].Crash != "":
		return fail("the generator crashes: %s at %s", rs[0].Crash, rs[0].Where)
	case rs[0].Exit != 0:
		return fail("the generator fails: %s", rs[0].Stderr())
	case rs[0].Stderr() != "":
		return fail("the generator reports errors: %s", rs[0].Stderr())
	}
	return rs[0].Output(mm.OutputDir)
}

// load type checks the generated code and prepares it for analysis.
func (c *Ctx) load() []*shape {
	shapes := c.generate("golang")
	var units []*engine.Unit
	for _, s := range shapes {
		if s.Go == nil {
			continue
		}
		s.unit = &engine.Unit{Base: "gen/" + s.name, Files: s.Go}
		units = append(units, s.unit)
	}
	prog, err := engine.LoadUnits(filepath.Join(c.Verif, "support"), units)
	if err != nil {
		panic(fatal{err.Error()})
	}
	c.gen.prog = prog
	return shapes
}

// generatorOf returns the name of the source file that generates a file.
func generatorOf(file string) string {
	switch {
	case strings.HasSuffix(file, "_json.go") || strings.HasSuffix(file, "metadata_reader.go") || strings.HasSuffix(file, "helpers/json.go"):
		return "json_generator.go"
	case strings.HasSuffix(file, "_builder.go"):
		return "builders_generator.go"
	case strings.HasSuffix(file, "client.go"):
		return "clients_generator.go"
	case strings.HasSuffix(file, "errors.go"):
		return "errors_generator.go"
	case strings.HasSuffix(file, "_type.go"):
		return "types_generator.go"
	case strings.Contains(file, "helpers/"):
		return "helpers_generator.go"
	case strings.Contains(file, "metrics"):
		return "metrics_generator.go"
	case strings.HasSuffix(file, "openapi.go"):
		return "openapi_generator.go"
	}
	return ""
}

var actionRE = regexp.MustCompile(`\{\{.*?\}\}`)

// provenance finds the line of the generator that probably produced a line of generated text.
func (c *Ctx) provenance(file, line string) string {
	g := generatorOf(file)
	if g == "" || line == "" {
		return g
	}
	path := filepath.Join("pkg/generators/golang", g)
	data, err := readFile(filepath.Join(c.Repo, path))
	if err != nil {
		return path
	}
	best, at := 0, 0
	for i, l := range strings.Split(data, "\n") {
		l = strings.TrimSpace(l)
		fixed := actionRE.Split(l, -1)
		n := 0
		for j := range fixed {
			n += len(fixed[j])
			fixed[j] = regexp.QuoteMeta(fixed[j])
		}
		if n <= best {
			continue
		}
		if ok, _ := regexp.MatchString("^"+strings.Join(fixed, ".*")+"$", line); ok {
			best, at = n, i+1
		}
	}
	if at == 0 {
		return path
	}
	return fmt.Sprintf("%s:%d", path, at)
}

func sortedNames(m map[string]string) (r []string) {
	for n := range m {
		r = append(r, n)
	}
	sort.Strings(r)
	return
}

// closureText is a set of types that use each other in all the possible ways.
const closureText = `
// A thing.
class Thing {
  Alpha Alpha
  Betas []Beta
  Gammas [String]Gamma
  Self Thing
  Selves []Thing
  SelfIndex [String]Thing
  Tint Color
  Names []String
  Counts [String]Integer
  Extra Interface
  link Far Far
  link Fars []Far
}

// An alpha.
struct Alpha {
  Delta Delta
  Name String
}

// A beta.
class Beta {
  Deltas []Delta
  Back Thing
  When Date
}

// A gamma.
struct Gamma {
  Betas [String]Beta
  Shade Shade
  Flags []Boolean
}

// A delta.
class Delta {
  Number Long
  link Far Far
  Shades []Shade
}

class Far {
  Name String
  Near Near
}

class Near {
  Label String
}

enum Color {
  Red
  Green
}

enum Shade {
  Light
  Dark
}
`

// closureUsers is a class that uses a referenced class in all the possible ways.
func closureUsers(n string) string {
	return "class " + n + " {\n  A Thing\n  B []Thing\n  C [String]Thing\n  D String\n}\nstruct " + n + "Piece {\n  A Thing\n  B []Thing\n}\n"
}

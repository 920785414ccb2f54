// Package mm contains the parts of the analysis that are specific for the metamodel: the grammar of
// the modelling language, the models of the libraries used by the commands, and the specimens.
package mm

import (
	"fmt"
	"strings"
)

// Tok is a token of the modelling language.
type Tok struct {
	Kind string // name of the token in the grammar, for example IDENTIFIER
	Text string
	Line int
	Col  int
}

// Node is a node of the parse tree.
type Node struct {
	Rule     string
	Start    *Tok
	Children []interface{} // *Node or *Tok
	Labels   map[string]interface{}
	Lists    map[string][]*Node
}

// Comment is a line comment.
type Comment struct {
	Line int
	Text string
}

// SyntaxError is an error found while parsing.
type SyntaxError struct {
	Line, Col int
	Msg       string
	Lexer     bool
}

var keywords = map[string]string{}

func init() {
	for _, k := range strings.Fields("attribute class code enum error false in link locator method out parameter resource struct target true value variable") {
		keywords[k] = strings.ToUpper(k)
	}
}

var punctuation = map[byte]string{
	'@': "AT_SIGN", '{': "LEFT_CURLY_BRACKET", '}': "RIGHT_CURLY_BRACKET", '[': "LEFT_SQUARE_BRACKET",
	']': "RIGHT_SQUARE_BRACKET", '(': "LEFT_PARENTHESIS", ')': "RIGHT_PARENTHESIS", '=': "EQUALS_SIGN",
}

// Parsed is the result of parsing a file.
type Parsed struct {
	Tree     *Node
	Comments []Comment
	Errors   []SyntaxError
	// Next is the first token that wasn't consumed.
	Next *Tok
}

func letter(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }

func lex(text string) (toks []*Tok, comments []Comment, errs []SyntaxError) {
	line, col := 1, 0
	i := 0
	adv := func(n int) {
		for k := 0; k < n; k++ {
			if text[i] == '\n' {
				line++
				col = 0
			} else {
				col++
			}
			i++
		}
	}
	for i < len(text) {
		c := text[i]
		rest := text[i:]
		switch {
		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
			adv(1)
		case strings.HasPrefix(rest, "//"):
			n := strings.IndexAny(rest, "\r\n")
			if n < 0 {
				n = len(rest)
			}
			comments = append(comments, Comment{Line: line, Text: rest[:n]})
			adv(n)
		case strings.HasPrefix(rest, "/*") && strings.Contains(rest[2:], "*/"):
			adv(strings.Index(rest[2:], "*/") + 4)
		case (c == '"' || c == '`') && strings.IndexByte(rest[1:], c) >= 0:
			n := strings.IndexByte(rest[1:], c) + 2
			toks = append(toks, &Tok{"STRING_LITERAL", rest[:n], line, col})
			adv(n)
		case letter(c):
			n := 1
			for n < len(rest) && (letter(rest[n]) || digit(rest[n])) {
				n++
			}
			k := keywords[rest[:n]]
			if k == "" {
				k = "IDENTIFIER"
			}
			toks = append(toks, &Tok{k, rest[:n], line, col})
			adv(n)
		case digit(c):
			n := 1
			for n < len(rest) && digit(rest[n]) {
				n++
			}
			toks = append(toks, &Tok{"INTEGER_LITERAL", rest[:n], line, col})
			adv(n)
		case punctuation[c] != "":
			toks = append(toks, &Tok{punctuation[c], string(c), line, col})
			adv(1)
		default:
			errs = append(errs, SyntaxError{line, col, "token recognition error at: '" + string(c) + "'", true})
			adv(1)
		}
	}
	toks = append(toks, &Tok{"EOF", "<EOF>", line, col})
	return
}

type parser struct {
	toks []*Tok
	pos  int
	errs []SyntaxError
}

type parseFailure struct{}

func (p *parser) la(k int) string {
	if p.pos+k >= len(p.toks) {
		return "EOF"
	}
	return p.toks[p.pos+k].Kind
}

func (p *parser) cur() *Tok { return p.toks[p.pos] }

func (p *parser) fail() {
	t := p.cur()
	p.errs = append(p.errs, SyntaxError{Line: t.Line, Col: t.Col, Msg: fmt.Sprintf("mismatched input '%s'", t.Text)})
	panic(parseFailure{})
}

func (p *parser) tok(n *Node, kind string) *Tok {
	if p.la(0) != kind {
		p.fail()
	}
	t := p.cur()
	p.pos++
	n.Children = append(n.Children, t)
	return t
}

func (p *parser) opt(n *Node, kind string) *Tok {
	if p.la(0) == kind {
		return p.tok(n, kind)
	}
	return nil
}

func (p *parser) node(rule string) *Node {
	return &Node{Rule: rule, Start: p.cur(), Labels: map[string]interface{}{}, Lists: map[string][]*Node{}}
}

// sub parses a rule and adds it as child, with the given labels, even if it fails.
func (p *parser) sub(n *Node, label string, rule string, f func(*Node)) *Node {
	c := p.node(rule)
	n.Children = append(n.Children, c)
	switch {
	case strings.HasSuffix(label, "+"):
		l := strings.TrimSuffix(label, "+")
		n.Lists[l] = append(n.Lists[l], c)
	case label != "":
		n.Labels[label] = c
	}
	f(c)
	return c
}

// Parse parses the text of a model file.
func Parse(text string) *Parsed {
	toks, comments, errs := lex(text)
	p := &parser{toks: toks}
	r := &Parsed{Comments: comments}
	r.Tree = p.node("file")
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(parseFailure); !ok {
					panic(x)
				}
			}
		}()
		for {
			switch p.la(0) {
			case "CLASS", "ENUM", "ERROR", "RESOURCE", "STRUCT", "AT_SIGN":
				p.sub(r.Tree, "", "declaration", p.declaration)
				continue
			}
			break
		}
	}()
	r.Errors = append(errs, p.errs...)
	r.Next = p.cur()
	return r
}

// afterAnnotations returns the kind of token that follows the annotations.
func (p *parser) afterAnnotations() string {
	k := 0
	for p.la(k) == "AT_SIGN" {
		k += 2
		if p.la(k) == "LEFT_PARENTHESIS" {
			for p.la(k) != "RIGHT_PARENTHESIS" && p.la(k) != "EOF" {
				k++
			}
			k++
		}
	}
	return p.la(k)
}

func (p *parser) declaration(n *Node) {
	if p.afterAnnotations() == "RESOURCE" {
		p.sub(n, "", "resourceDecl", p.resourceDecl)
	} else {
		p.sub(n, "", "typeDecl", p.typeDecl)
	}
}

func (p *parser) typeDecl(n *Node) {
	switch p.afterAnnotations() {
	case "ENUM":
		p.sub(n, "", "enumDecl", func(n *Node) {
			p.block(n, "ENUM", func() { p.sub(n, "members+", "enumMemberDecl", p.enumMemberDecl) })
		})
	case "CLASS":
		p.sub(n, "", "classDecl", func(n *Node) {
			p.block(n, "CLASS", func() { p.sub(n, "members+", "structMemberDecl", p.structMemberDecl) })
		})
	case "STRUCT":
		p.sub(n, "", "structDecl", func(n *Node) {
			p.block(n, "STRUCT", func() { p.sub(n, "members+", "structMemberDecl", p.structMemberDecl) })
		})
	case "ERROR":
		p.sub(n, "", "errorDecl", func(n *Node) {
			p.block(n, "ERROR", func() {
				p.sub(n, "members+", "errorMemberDecl", func(n *Node) {
					p.sub(n, "", "errorCodeDecl", func(n *Node) {
						p.tok(n, "CODE")
						n.Labels["code"] = p.tok(n, "INTEGER_LITERAL")
					})
				})
			})
		})
	default:
		p.fail()
	}
}

func (p *parser) annotations(n *Node) {
	for p.la(0) == "AT_SIGN" {
		p.sub(n, "annotations+", "annotation", func(n *Node) {
			p.tok(n, "AT_SIGN")
			p.identifier(n, "name")
			if p.la(0) == "LEFT_PARENTHESIS" {
				p.sub(n, "parameters", "annotationParameters", func(n *Node) {
					p.tok(n, "LEFT_PARENTHESIS")
					for p.la(0) == "IDENTIFIER" {
						p.sub(n, "parameters+", "annotationParameter", func(n *Node) {
							p.identifier(n, "")
							p.tok(n, "EQUALS_SIGN")
							p.literal(n, "")
						})
					}
					p.tok(n, "RIGHT_PARENTHESIS")
				})
			}
		})
	}
}

func (p *parser) identifier(n *Node, label string) {
	p.sub(n, label, "identifier", func(n *Node) { n.Labels["id"] = p.tok(n, "IDENTIFIER") })
}

func (p *parser) literal(n *Node, label string) {
	p.sub(n, label, "literal", func(n *Node) {
		switch p.la(0) {
		case "TRUE", "FALSE":
			p.sub(n, "", "booleanLiteral", func(n *Node) { p.tok(n, p.la(0)) })
		case "INTEGER_LITERAL":
			p.sub(n, "", "integerLiteral", func(n *Node) { p.tok(n, p.la(0)) })
		case "STRING_LITERAL":
			p.sub(n, "", "stringLiteral", func(n *Node) { p.tok(n, p.la(0)) })
		default:
			p.fail()
		}
	})
}

// block parses the annotations, the keyword, the name and the members between curly brackets.
func (p *parser) block(n *Node, keyword string, member func()) {
	p.annotations(n)
	if keyword == "METHOD" {
		p.opt(n, keyword)
	} else {
		p.tok(n, keyword)
	}
	p.identifier(n, "name")
	p.tok(n, "LEFT_CURLY_BRACKET")
	for p.la(0) != "RIGHT_CURLY_BRACKET" {
		if p.la(0) == "EOF" {
			p.fail()
		}
		member()
	}
	p.tok(n, "RIGHT_CURLY_BRACKET")
}

func (p *parser) enumMemberDecl(n *Node) {
	p.annotations(n)
	p.opt(n, "VALUE")
	p.identifier(n, "name")
}

func (p *parser) structMemberDecl(n *Node) {
	p.annotations(n)
	switch p.la(0) {
	case "ATTRIBUTE", "LINK":
		p.sub(n, "kind", "attributeKind", func(n *Node) { p.tok(n, p.la(0)) })
	}
	p.identifier(n, "name")
	p.typeReference(n, "reference")
}

func (p *parser) typeReference(n *Node, label string) {
	p.sub(n, label, "typeReference", func(n *Node) {
		switch {
		case p.la(0) == "IDENTIFIER":
			p.sub(n, "plain", "plainTypeReference", func(n *Node) { p.identifier(n, "name") })
		case p.la(0) == "LEFT_SQUARE_BRACKET" && p.la(1) == "RIGHT_SQUARE_BRACKET":
			p.sub(n, "list", "listTypeReference", func(n *Node) {
				p.tok(n, "LEFT_SQUARE_BRACKET")
				p.tok(n, "RIGHT_SQUARE_BRACKET")
				p.identifier(n, "element")
			})
		case p.la(0) == "LEFT_SQUARE_BRACKET":
			p.sub(n, "mp", "mapTypeReference", func(n *Node) {
				p.tok(n, "LEFT_SQUARE_BRACKET")
				p.identifier(n, "index")
				p.tok(n, "RIGHT_SQUARE_BRACKET")
				p.identifier(n, "element")
			})
		default:
			p.fail()
		}
	})
}

func (p *parser) resourceDecl(n *Node) {
	p.block(n, "RESOURCE", func() {
		p.sub(n, "members+", "resourceMemberDecl", func(n *Node) {
			if p.afterAnnotations() == "LOCATOR" {
				p.sub(n, "", "locatorDecl", func(n *Node) {
					p.block(n, "LOCATOR", func() {
						p.sub(n, "members+", "locatorMemberDecl", func(n *Node) {
							switch p.la(0) {
							case "TARGET":
								p.sub(n, "", "locatorTargetDecl", func(n *Node) {
									p.tok(n, "TARGET")
									p.sub(n, "reference", "resourceReference", func(n *Node) { p.identifier(n, "name") })
								})
							case "VARIABLE":
								p.sub(n, "", "locatorVariableDecl", func(n *Node) {
									p.tok(n, "VARIABLE")
									p.identifier(n, "name")
								})
							default:
								p.fail()
							}
						})
					})
				})
				return
			}
			p.sub(n, "", "methodDecl", func(n *Node) {
				p.block(n, "METHOD", func() {
					p.sub(n, "members+", "methodMemberDecl", func(n *Node) {
						p.sub(n, "", "methodParameterDecl", p.methodParameterDecl)
					})
				})
			})
		})
	})
}

func (p *parser) methodParameterDecl(n *Node) {
	p.annotations(n)
	p.opt(n, "PARAMETER")
	for p.la(0) == "IN" || p.la(0) == "OUT" {
		p.sub(n, "directions+", "parameterDirection", func(n *Node) {
			if t := p.opt(n, "IN"); t != nil {
				n.Labels["in"] = t
			} else {
				n.Labels["out"] = p.tok(n, "OUT")
			}
		})
	}
	p.identifier(n, "name")
	p.typeReference(n, "reference")
	if p.opt(n, "EQUALS_SIGN") != nil {
		p.literal(n, "dflt")
	}
}

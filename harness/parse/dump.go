package main

import (
	"fmt"
	"strings"

	"github.com/mmcloughlin/trunnel/ast"
)

// dump spells a tree; nil and empty lists are the same except for the members
// of a struct, where nil means extern.
func dump(f *ast.File) string {
	if f == nil {
		return "<nil>"
	}
	var b strings.Builder
	for _, c := range f.Constants {
		fmt.Fprintf(&b, "const %s=%d\n", c.Name, c.Value)
	}
	for _, c := range f.Contexts {
		fmt.Fprintf(&b, "context %s\n", c.Name)
		for _, m := range c.Members {
			fmt.Fprintf(&b, "  %s\n", node(m))
		}
	}
	for _, s := range f.Structs {
		fmt.Fprintf(&b, "struct %s %q extern=%v %v\n", s.Name, s.Contexts, s.Extern(), s.Members == nil)
		for _, m := range s.Members {
			fmt.Fprintf(&b, "  %s\n", node(m))
		}
	}
	for _, p := range f.Pragmas {
		fmt.Fprintf(&b, "pragma %s %q\n", p.Type, p.Options)
	}
	return b.String()
}

func list(l *ast.IntegerList) string {
	if l == nil {
		return "-"
	}
	var s []string
	for _, r := range l.Ranges {
		if r == nil {
			s = append(s, "<nil>")
			continue
		}
		s = append(s, node(r.Low)+".."+node(r.High))
	}
	return "[" + strings.Join(s, ",") + "]"
}

func node(n interface{}) string {
	switch n := n.(type) {
	case nil:
		return "-"
	case *ast.Field:
		return fmt.Sprintf("field %s: %s", n.Name, node(n.Type))
	case *ast.IntType:
		return fmt.Sprintf("u%d%s", n.Size, list(n.Constraint))
	case *ast.CharType:
		return "char"
	case *ast.Ptr:
		return "ptr"
	case *ast.NulTermString:
		return "nulterm"
	case *ast.StructRef:
		return "struct " + n.Name
	case *ast.FixedArrayMember:
		return fmt.Sprintf("fixed(%s)[%s]", node(n.Base), node(n.Size))
	case *ast.VarArrayMember:
		return fmt.Sprintf("var(%s)[%s]", node(n.Base), node(n.Constraint))
	case *ast.Leftover:
		return "..-" + node(n.Num)
	case *ast.IDRef:
		if n == nil {
			return "<nil ref>"
		}
		return fmt.Sprintf("ref(%q.%q)", n.Scope, n.Name)
	case *ast.IntegerLiteral:
		return fmt.Sprint(n.Value)
	case *ast.IntegerConstRef:
		return "$" + n.Name
	case *ast.EOS:
		return "eos"
	case *ast.Fail:
		return "fail"
	case *ast.Ignore:
		return "ignore"
	case *ast.UnionMember:
		s := fmt.Sprintf("union %s[%s] len=%s {", n.Name, node(n.Tag), node(n.Length))
		for _, c := range n.Cases {
			s += list(c.Case) + ":"
			for _, m := range c.Members {
				s += node(m) + ";"
			}
			s += "|"
		}
		return s + "}"
	}
	return fmt.Sprintf("?%T", n)
}

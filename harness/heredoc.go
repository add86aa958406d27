package main

import "strings"

// simpleHeredoc is used in ordinary programs; check C05 has its own generator for all variants.
func (g *G) simpleHeredoc() *Node {
	g.tag("heredoc")
	end := g.pick([]string{"END", "A", "- x"[2:], "EOT"})
	trim := g.bool()
	margin := ""
	if g.bool() {
		margin = "  "
	}
	var raw, val strings.Builder
	for i := g.n(3); i > 0; i-- {
		l := g.pick([]string{"hello", "", "a 'b", "x \"y", "/* c", "# d", "{", "é", "| z", "  in", "$x"})
		if l != "" {
			raw.WriteString(margin)
		}
		raw.WriteString(l + "\n")
		val.WriteString(l + "\n")
	}
	s := val.String()
	tail := end + "\n"
	if trim {
		tail = "- " + tail
		s = strings.TrimSuffix(s, "\n")
	}
	if margin != "" {
		tail = margin + "| " + tail
		tail = strings.Replace(tail, "| - ", "|- ", 1)
	} else if g.bool() && trim {
		tail = " " + tail
	}
	return &Node{K: KHeredoc, Src: end, A: &Node{K: KStr, S: s, Src: raw.String(), Syn: true}, Op: tail}
}

package main

import (
	"fmt"
	"os"
	"strings"
)

var debugAsserts = os.Getenv("ZZ_DEBUG_ASSERTS") != ""

func dump(t *Term, depth int) string {
	if t.op == OpConst {
		return fmt.Sprint(t.val)
	}
	if t.op == OpVar {
		return t.name
	}
	if depth == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var a []string
	for _, x := range t.args {
		a = append(a, dump(x, depth-1))
	}
	return fmt.Sprintf("(%d %s)", t.op, strings.Join(a, " "))
}

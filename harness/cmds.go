package main

import (
	_ "embed"
	"regexp"
	"strconv"
	"strings"
)

// The table of commands as it should be, frozen: name, minimal length, parser
// and flags of Vim's commands, in Vim's order, and what Neovim adds and
// removes.
//
//go:embed data/cmds.txt
var cmdsTxt string

type CmdInfo struct {
	Name   string
	Min    int
	Parser string
	Flags  string
}

func (c *CmdInfo) Has(flag string) bool {
	for _, f := range strings.Split(c.Flags, "|") {
		if f == flag {
			return true
		}
	}
	return false
}

var builtins, nvimAdd, nvimDel []*CmdInfo

func init() {
	for _, l := range strings.Split(cmdsTxt, "\n") {
		f := strings.Split(l, " ")
		if len(f) < 5 {
			continue
		}
		n, _ := strconv.Atoi(f[2])
		c := &CmdInfo{f[1], n, f[3], f[4]}
		switch f[0] {
		case "cmd":
			builtins = append(builtins, c)
		case "add":
			nvimAdd = append(nvimAdd, c)
		case "del":
			nvimDel = append(nvimDel, c)
		}
	}
}

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isWord(c byte) bool  { return isAlpha(c) || isDigit(c) || c == '_' }
func isName(c byte) bool  { return isWord(c) || c == ':' || c == '#' }

func span(s string, f func(byte) bool) string {
	i := 0
	for i < len(s) && f(s[i]) {
		i++
	}
	return s[:i]
}

var (
	subRE = regexp.MustCompile(`^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])`)
	delRE = regexp.MustCompile(`^d(e(l(e(te?)?)?)?)?[lp]$`)
)

func lookup(tab []*CmdInfo, name string) *CmdInfo {
	for _, c := range tab {
		if strings.HasPrefix(c.Name, name) && len(name) >= c.Min {
			return c
		}
	}
	return nil
}

// resolve tells which command the text of a command starts with: the command,
// or nil for E492, and the length of its name in the text.
func resolve(text string, neovim bool) (*CmdInfo, int) {
	name := ""
	full := 0
	switch {
	case text == "":
		return nil, 0
	case text[0] == 'k':
		name, full = "k", 1
	case subRE.MatchString(text[:min(5, len(text))]):
		name, full = "substitute", 1
	case strings.IndexByte("@*!=><&~#", text[0]) >= 0:
		name, full = text[:1], 1
	case strings.HasPrefix(text, "py"):
		name = span(text, func(c byte) bool { return isAlpha(c) || isDigit(c) })
		full = len(name)
	default:
		name = span(text, isAlpha)
		if name != "del" && delRE.MatchString(name) {
			name = name[:len(name)-1]
		}
		full = len(name)
	}
	if name == "" {
		return nil, 0
	}
	cmd := lookup(builtins, name)
	if neovim {
		if c := lookup(nvimAdd, name); c != nil {
			cmd = c
		}
		if lookup(nvimDel, name) != nil {
			cmd = nil
		}
	}
	if (cmd == nil || cmd.Name == "Print") && name[0] >= 'A' && name[0] <= 'Z' {
		n := span(text, func(c byte) bool { return isAlpha(c) || isDigit(c) })
		return &CmdInfo{n, 0, "parse_cmd_usercmd", "USERCMD"}, len(n)
	}
	return cmd, full
}

// The command modifiers with the length of their shortest abbreviation.
var modTable = []struct {
	Name string
	Min  int
}{
	{"aboveleft", 3}, {"belowright", 3}, {"browse", 3}, {"botright", 2}, {"confirm", 4}, {"filter", 4}, {"keepmarks", 3},
	{"keepalt", 5}, {"keepjumps", 5}, {"keeppatterns", 5}, {"hide", 3}, {"lockmarks", 3}, {"leftabove", 5},
	{"noautocmd", 3}, {"noswapfile", 3}, {"rightbelow", 6}, {"sandbox", 3}, {"silent", 3}, {"tab", 3},
	{"topleft", 2}, {"unsilent", 3}, {"vertical", 4}, {"verbose", 4},
}

func modifierOf(word string) string {
	for _, m := range modTable {
		if len(word) >= m.Min && strings.HasPrefix(m.Name, word) {
			return m.Name
		}
	}
	return ""
}

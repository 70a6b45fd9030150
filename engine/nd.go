package main

import (
	"fmt"
	"go/types"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
)

// vfile is a file of the modelled file system.
type vfile struct {
	name    string
	content *Str
	mode    int // 0 readable, 1 gone (a dangling link), 2 cannot be read (a directory), 3 not permitted
}

type vhandle struct {
	f   *vfile
	off int
}

type vfs struct {
	files   []*vfile
	stdin   *Str
	handles map[Ptr]*vhandle
}

func (m *Machine) fs() *vfs {
	if m.vfs == nil {
		m.vfs = &vfs{handles: map[Ptr]*vhandle{}, stdin: emptyStr}
	}
	return m.vfs
}

func (v *vfs) find(name string) *vfile {
	for _, f := range v.files {
		if path.Clean(f.name) == path.Clean(name) {
			return f
		}
	}
	return nil
}

// pathError is an error of the operating system, as package os reports it.
func (m *Machine) pathError(op, name string, no syscall.Errno) Value {
	pe := m.prog.pkgs["io/fs"].Pkg.Scope().Lookup("PathError").Type()
	en := m.prog.pkgs["syscall"].Pkg.Scope().Lookup("Errno").Type()
	v := Value(structV{cstr(op), cstr(name), ifaceV{t: en, v: m.c.Const(64, uint64(no))}})
	return ifaceV{t: types.NewPointer(pe), v: Ptr(&v)}
}

// entry finds a file or a directory.
func (v *vfs) entry(name string) *vfile {
	if f := v.find(name); f != nil {
		return f
	}
	for _, d := range v.dirs() {
		if d == path.Clean(name) {
			return &vfile{name: d, mode: 2, content: emptyStr}
		}
	}
	return nil
}

// dirs are the directories that hold files.
func (v *vfs) dirs() (l []string) {
	seen := map[string]bool{}
	for _, f := range v.files {
		for d := path.Dir(path.Clean(f.name)); d != "." && d != "/" && !seen[d]; d = path.Dir(d) {
			seen[d] = true
			l = append(l, d)
		}
	}
	sort.Strings(l)
	return
}

// glob is filepath.Glob over the files and directories.
func (v *vfs) glob(pat string) (names []string, bad bool) {
	if _, err := path.Match(pat, ""); err != nil {
		return nil, true
	}
	if !strings.ContainsAny(pat, "*?[\\") {
		if v.entry(pat) != nil {
			names = append(names, pat)
		}
		return
	}
	dir, file := path.Split(pat)
	if dir = strings.TrimSuffix(dir, "/"); dir == "" {
		dir = "."
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, "*?[\\") {
		if dirs, bad = v.glob(dir); bad {
			return
		}
	}
	for _, d := range dirs {
		seen := map[string]bool{}
		var in []string
		add := func(n string) {
			if path.Dir(n) == path.Clean(d) && !seen[n] {
				seen[n] = true
				in = append(in, path.Base(n))
			}
		}
		for _, f := range v.files {
			add(path.Clean(f.name))
		}
		for _, n := range v.dirs() {
			add(n)
		}
		sort.Strings(in)
		for _, n := range in {
			if ok, _ := path.Match(file, n); ok {
				names = append(names, path.Join(d, n))
			}
		}
	}
	return
}

// openErr tells why a file cannot be opened.
func openErr(f *vfile) (syscall.Errno, bool) {
	switch {
	case f == nil || f.mode == 1:
		return syscall.ENOENT, true
	case f.mode == 3:
		return syscall.EACCES, true
	}
	return 0, false
}

func (m *Machine) eof() Value {
	return *m.global(m.prog.pkgs["io"].Var("EOF"))
}

func (m *Machine) openV(name string) Value {
	nilF := Ptr(nil)
	f := m.fs().entry(name)
	if e, bad := openErr(f); bad {
		return tupleV{nilF, m.pathError("open", name, e)}
	}
	v := m.zero(m.prog.pkgs["os"].Pkg.Scope().Lookup("File").Type())
	p := Ptr(&v)
	m.fs().handles[p] = &vhandle{f: f}
	return tupleV{p, ifaceV{}}
}

func (m *Machine) readH(p Ptr, buf []Value) Value {
	var content *Str
	h := m.fs().handles[p]
	if p == m.native["os.Stdin"] {
		content = m.fs().stdin
		if h == nil {
			h = &vhandle{f: &vfile{}}
			m.fs().handles[p] = h
		}
	} else {
		if h == nil {
			return tupleV{m.i64(0), m.newError(cstr("file already closed"))}
		}
		if h.f.mode == 2 {
			return tupleV{m.i64(0), m.pathError("read", h.f.name, syscall.EISDIR)}
		}
		content = h.f.content
	}
	b := m.fixLen(content)
	if len(buf) == 0 {
		return tupleV{m.i64(0), ifaceV{}}
	}
	if h.off >= len(b) {
		return tupleV{m.i64(0), m.eof()}
	}
	n := 0
	for n < len(buf) && h.off < len(b) {
		m.assign(&buf[n], b[h.off])
		n++
		h.off++
	}
	return tupleV{m.i64(int64(n)), ifaceV{}}
}

func registerFS(reg func(string, bool, func(m *Machine, fi *fnInfo, a []Value) Value)) {
	type F = func(m *Machine, fi *fnInfo, a []Value) Value
	reg("path/filepath.Glob", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		names, bad := m.fs().glob(m.goStr(a[0]))
		if bad {
			return tupleV{sliceV{}, *m.global(m.prog.pkgs["path/filepath"].Var("ErrBadPattern"))}
		}
		if len(names) == 0 {
			return tupleV{sliceV{}, ifaceV{}}
		}
		var out []Value
		for _, n := range names {
			out = append(out, cstr(n))
		}
		return tupleV{sliceV{a: out}, ifaceV{}}
	})
	reg("os.Open", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.openV(m.goStr(a[0])) })
	reg("os.OpenFile", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.openV(m.goStr(a[0])) })
	reg("os.ReadFile", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		name := m.goStr(a[0])
		f := m.fs().entry(name)
		if e, bad := openErr(f); bad {
			return tupleV{sliceV{}, m.pathError("open", name, e)}
		}
		if f.mode == 2 {
			return tupleV{sliceV{a: []Value{}}, m.pathError("read", name, syscall.EISDIR)}
		}
		b := m.strBytes(f.content)
		if b == nil {
			b = []Value{}
		}
		return tupleV{sliceV{a: b}, ifaceV{}}
	})
	stat := func(m *Machine, f *vfile, op, name string, link bool) Value {
		if f == nil || f.mode == 1 && !link {
			return tupleV{ifaceV{}, m.pathError(op, name, syscall.ENOENT)}
		}
		t := m.prog.pkgs["os"].Pkg.Scope().Lookup("fileStat").Type()
		st := t.Underlying().(*types.Struct)
		v := m.zero(t).(structV)
		mode, size := uint64(0600), m.lenOf(f.content)
		switch f.mode {
		case 1:
			mode = uint64(os.ModeSymlink | 0777)
		case 2:
			mode, size = uint64(os.ModeDir|0700), m.i64(4096)
		case 3:
			mode = 0
		}
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "name":
				v[i] = cstr(path.Base(name))
			case "size":
				v[i] = size
			case "mode":
				v[i] = m.c.Const(32, mode)
			}
		}
		x := Value(v)
		return tupleV{ifaceV{t: types.NewPointer(t), v: Ptr(&x)}, ifaceV{}}
	}
	reg("os.Stat", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := m.goStr(a[0])
		return stat(m, m.fs().entry(n), "stat", n, false)
	})
	reg("os.Lstat", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := m.goStr(a[0])
		return stat(m, m.fs().entry(n), "lstat", n, true)
	})
	reg("(*os.File).Stat", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		p := a[0].(Ptr)
		if p == m.native["os.Stdin"] {
			m.unsupported("stat of the standard input")
		}
		h := m.fs().handles[p]
		if h == nil {
			return tupleV{ifaceV{}, m.newError(cstr("invalid argument"))}
		}
		return stat(m, h.f, "stat", h.f.name, false)
	})
	reg("(syscall.Errno).Error", true, func(m *Machine, fi *fnInfo, a []Value) Value {
		return cstr(syscall.Errno(m.goInt(a[0])).Error())
	})
	reg("(*os.File).Read", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		p := a[0].(Ptr)
		if p == nil {
			return tupleV{m.i64(0), m.newError(cstr("invalid argument"))}
		}
		return m.readH(p, a[1].(sliceV).a)
	})
	reg("(*os.File).Close", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		p := a[0].(Ptr)
		if p == nil {
			return m.newError(cstr("invalid argument"))
		}
		if p != m.native["os.Stdin"] {
			if _, ok := m.fs().handles[p]; !ok {
				return m.newError(cstr("close: file already closed"))
			}
			delete(m.fs().handles, p)
		}
		return ifaceV{}
	})
	reg("(*os.File).Name", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		p := a[0].(Ptr)
		switch {
		case p == nil:
			m.nilPanic()
		case p == m.native["os.Stdin"]:
			return cstr("/dev/stdin")
		case p == m.native["os.Stdout"]:
			return cstr("/dev/stdout")
		case p == m.native["os.Stderr"]:
			return cstr("/dev/stderr")
		}
		if h := m.fs().handles[p]; h != nil {
			return cstr(h.f.name)
		}
		return emptyStr
	})
	write := func(m *Machine, p Ptr, s *Str) Value {
		m.stdFile("os.Stdout")
		if p == m.native["os.Stdout"] {
			m.writeOut(s)
		} else if p != m.native["os.Stderr"] {
			m.unsupported("write to a file")
		}
		return tupleV{m.lenOf(s), ifaceV{}}
	}
	reg("(*os.File).Write", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		return write(m, a[0].(Ptr), m.sliceStr(a[1]))
	})
	reg("(*os.File).WriteString", false, func(m *Machine, fi *fnInfo, a []Value) Value { return write(m, a[0].(Ptr), a[1].(*Str)) })
	// io.ReadAll of a file returns its whole content (the read loop is the library's)
	reg("io.ReadAll", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		r := a[0].(ifaceV)
		if p, ok := r.v.(Ptr); ok && r.t != nil && r.t.String() == "*os.File" {
			if p == nil {
				return tupleV{sliceV{a: []Value{}}, m.newError(cstr("invalid argument"))}
			}
			h := m.fs().handles[p]
			if p != m.native["os.Stdin"] && h == nil {
				return tupleV{sliceV{a: []Value{}}, m.pathError("read", "file", syscall.EBADF)}
			}
			if h != nil && h.f.mode == 2 {
				return tupleV{sliceV{a: []Value{}}, m.pathError("read", h.f.name, syscall.EISDIR)}
			}
			content := m.fs().stdin
			off := 0
			if h != nil {
				off = h.off
				if p != m.native["os.Stdin"] {
					content = h.f.content
				}
			} else {
				h = &vhandle{f: &vfile{}}
				m.fs().handles[p] = h
			}
			b := m.strBytes(content)
			h.off = len(b)
			b = b[off:]
			if b == nil {
				b = []Value{}
			}
			return tupleV{sliceV{a: b}, ifaceV{}}
		}
		return m.body(fi, a)
	})
}

// uniq makes an input name unique on the path.
func (m *Machine) uniq(n Value) string {
	s := m.goStr(n)
	m.nameCnt[s]++
	if k := m.nameCnt[s]; k > 1 {
		s = fmt.Sprintf("%s~%d", s, k)
	}
	return s
}

func (m *Machine) record(in inputRec) { m.inputs = append(m.inputs, in) }

// charset constrains a byte without the solver.
func (m *Machine) restrict(v *Term, s tset) { m.addFactSet(v, s) }

func (m *Machine) addFactSet(v *Term, s tset) {
	// build a compact membership condition
	var disj []*Term
	for lo := 0; lo < 256; {
		if !s.has(uint64(lo)) {
			lo++
			continue
		}
		hi := lo
		for hi+1 < 256 && s.has(uint64(hi+1)) {
			hi++
		}
		switch {
		case lo == hi:
			disj = append(disj, m.c.Eq(v, m.c.Const(8, uint64(lo))))
		default:
			disj = append(disj, m.c.And(m.c.cmp(OpUle, m.c.Const(8, uint64(lo)), v), m.c.cmp(OpUle, v, m.c.Const(8, uint64(hi)))))
		}
		lo = hi + 1
	}
	m.assume(m.c.Or(disj...))
}

func setOf(s string) tset {
	var t tset
	for i := 0; i < len(s); i++ {
		t.add(uint64(s[i]))
	}
	return t
}

const nameStart = "_ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

// atom makes a string of symbolic length min..max with per-position character sets.
func (m *Machine) atom(name string, min, max int, set func(i int) *tset) *Str {
	c := m.c
	ln := m.newVar(name+".n", 8, uint64(min))
	m.assume(c.And(c.cmp(OpUle, c.Const(8, uint64(min)), ln), c.cmp(OpUle, ln, c.Const(8, uint64(max)))))
	m.atomCnt++
	bs := make([]*Term, max)
	for i := range bs {
		hint := uint64(0)
		st := set(i)
		if i < min {
			hint = 'a' + uint64(m.atomCnt%26)
			if st != nil && !st.has(hint) {
				hint = pickByte(*st)
			}
			if st == nil && i > 0 {
				hint = 'a'
			}
		}
		b := m.newVar(fmt.Sprintf("%s.%d", name, i), 8, hint)
		bs[i] = b
		in := c.cmp(OpUlt, c.Const(8, uint64(i)), ln)
		zero := c.Eq(b, c.Const(8, 0))
		switch {
		case st == nil:
			if i >= min {
				m.assume(c.Or(in, zero))
			}
		default:
			s2 := *st
			if i >= min {
				s2.add(0)
			}
			m.addFactSet(b, s2)
			if i >= min {
				m.assume(c.Eq(zero, c.Not(in)))
			}
		}
	}
	s := c.mkStr([]seg{{kind: segAtom, n: c.Resize(ln, 64, false), bytes: bs}})
	m.record(inputRec{Name: name, Kind: "str", str: s})
	return s
}

func registerND(reg func(string, bool, func(m *Machine, fi *fnInfo, a []Value) Value)) {
	reg("nd.Bool", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := m.uniq(a[0])
		v := m.newVar(n, 0, 0)
		m.record(inputRec{Name: n, Kind: "bool", term: v})
		return v
	})
	reg("nd.Int", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := m.uniq(a[0])
		lo, hi := m.goInt(a[1]), m.goInt(a[2])
		if hi < lo {
			panic(pathEnd{"assume", ""})
		}
		w := uint8(8)
		if hi-lo > 255 {
			w = 64
		}
		v := m.newVar(n, w, 0)
		m.assume(m.c.cmp(OpUle, v, m.c.Const(w, uint64(hi-lo))))
		t := m.c.Bin(OpAdd, m.c.Resize(v, 64, false), m.i64(lo))
		m.record(inputRec{Name: n, Kind: "int", term: t})
		return t
	})
	reg("nd.Choice", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := m.uniq(a[0])
		k := m.pick(int(m.goInt(a[1])))
		m.record(inputRec{Name: n, Kind: "choice", Val: int64(k)})
		return m.i64(int64(k))
	})
	reg("nd.Byte", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := m.uniq(a[0])
		v := m.newVar(n, 8, 'a')
		m.record(inputRec{Name: n, Kind: "byte", term: m.c.Resize(v, 64, false)})
		return v
	})
	reg("nd.Bytes", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := m.uniq(a[0])
		k := int(m.goInt(a[1]))
		b := make([]*Term, k)
		for i := range b {
			b[i] = m.newVar(fmt.Sprintf("%s.%d", n, i), 8, ' ')
		}
		s := m.c.fixedStr(b)
		m.record(inputRec{Name: n, Kind: "str", str: s})
		return s
	})
	reg("nd.BytesOf", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := m.uniq(a[0])
		k := int(m.goInt(a[1]))
		set := setOf(m.goStr(a[2]))
		b := make([]*Term, k)
		for i := range b {
			b[i] = m.newVar(fmt.Sprintf("%s.%d", n, i), 8, pickByte(set))
			m.addFactSet(b[i], set)
		}
		s := m.c.fixedStr(b)
		m.record(inputRec{Name: n, Kind: "str", str: s})
		return s
	})
	reg("nd.Str", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		return m.atom(m.uniq(a[0]), 0, int(m.goInt(a[1])), func(int) *tset { return nil })
	})
	reg("nd.StrOf", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		set := setOf(m.goStr(a[3]))
		return m.atom(m.uniq(a[0]), int(m.goInt(a[1])), int(m.goInt(a[2])), func(int) *tset { return &set })
	})
	reg("nd.Name", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		s0, s1 := setOf(nameStart), setOf(nameStart+"0123456789")
		return m.atom(m.uniq(a[0]), 1, int(m.goInt(a[1])), func(i int) *tset {
			if i == 0 {
				return &s0
			}
			return &s1
		})
	})
	reg("nd.Pick", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		// one of several fixed strings, without forking
		n := m.uniq(a[0])
		opts := a[1].(sliceV).a
		v := m.newVar(n, 8, 0)
		m.assume(m.c.cmp(OpUlt, v, m.c.Const(8, uint64(len(opts)))))
		m.record(inputRec{Name: n, Kind: "int", term: m.c.Resize(v, 64, false)})
		r := opts[len(opts)-1].(*Str)
		for k := len(opts) - 2; k >= 0; k-- {
			x := m.c.iteStr(m.c.Eq(v, m.c.Const(8, uint64(k))), opts[k].(*Str), r)
			if x == nil {
				m.unsupported("nd.Pick of long strings")
			}
			r = x
		}
		return r
	})
	reg("nd.Assume", false, func(m *Machine, fi *fnInfo, a []Value) Value { m.assume(a[0].(*Term)); return nil })
	reg("nd.Assert", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		m.assert(a[0].(*Term), m.goStr(a[1]))
		return nil
	})
	reg("nd.Fail", false, func(m *Machine, fi *fnInfo, a []Value) Value { m.assert(m.c.F, m.goStr(a[0])); return nil })
	reg("nd.Reach", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		m.reach = append(m.reach, m.goStr(a[0]))
		return nil
	})
	reg("nd.Obs", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		iv := a[1].(ifaceV)
		m.obs = append(m.obs, obsRec{m.goStr(a[0]), iv.v, iv.t})
		return nil
	})
	reg("nd.Known", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		id := m.goStr(a[0])
		if t := a[1].(*Term); !t.isFalse() && m.ex.knownIDs[id] {
			m.known = append(m.known, knownRec{id, t})
		}
		return nil
	})
	reg("nd.MapOrders", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		if a[0].(*Term).isTrue() {
			m.mapPerm = 1
		} else {
			m.mapPerm = 0
		}
		return nil
	})
	reg("nd.Deep", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.c.Bool(m.ex.deep) })
	reg("nd.Symbolic", false, func(m *Machine, fi *fnInfo, a []Value) Value { return m.c.T })
	reg("nd.Concrete", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		return m.i64(m.goInt(a[0]))
	})
	reg("nd.Capture", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		save := m.stdout
		m.stdout = nil
		m.callClosure(a[0].(*closure), nil)
		s := m.c.mkStr(m.stdout)
		m.stdout = save
		return s
	})
	reg("nd.File", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		m.fs().files = append(m.fs().files, &vfile{name: m.goStr(a[0]), content: a[1].(*Str)})
		return nil
	})
	reg("nd.OpenFiles", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		n := 0
		for p := range m.fs().handles {
			if p != m.native["os.Stdin"] {
				n++
			}
		}
		return m.i64(int64(n))
	})
	reg("nd.BadFile", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		m.fs().files = append(m.fs().files, &vfile{name: m.goStr(a[0]), content: emptyStr, mode: int(m.goInt(a[1]))})
		return nil
	})
	reg("nd.Stdin", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		m.stdFile("os.Stdin")
		m.fs().stdin = a[0].(*Str)
		return nil
	})
	reg("nd.Run", false, func(m *Machine, fi *fnInfo, a []Value) Value {
		// Run(f, args...) (code int, out string)
		av := a[1].(sliceV).a
		args := []Value{cstr("gql")}
		args = append(args, av...)
		g := m.global(m.prog.pkgs["os"].Var("Args"))
		m.store(g, sliceV{a: args})
		save := m.stdout
		m.stdout = nil
		code := m.i64(0)
		depth, stk, np := m.depth, len(m.callStk), len(m.panicking)
		func() {
			defer func() {
				if r := recover(); r != nil {
					x, ok := r.(exitSig)
					if !ok {
						panic(r)
					}
					code = x.code
					m.depth, m.callStk, m.panicking = depth, m.callStk[:stk], m.panicking[:np]
				}
			}()
			m.callClosure(a[0].(*closure), nil)
		}()
		s := m.c.mkStr(m.stdout)
		m.stdout = save
		return tupleV{code, s}
	})
	reg("nd.Itoa", true, func(m *Machine, fi *fnInfo, a []Value) Value { return m.itoa(a[0].(*Term), true) })
	// pure boolean connectives and selection: no forking
	reg("nd.And", true, func(m *Machine, fi *fnInfo, a []Value) Value { return m.c.And(a[0].(*Term), a[1].(*Term)) })
	reg("nd.Or", true, func(m *Machine, fi *fnInfo, a []Value) Value { return m.c.Or(a[0].(*Term), a[1].(*Term)) })
	reg("nd.If", true, func(m *Machine, fi *fnInfo, a []Value) Value {
		return m.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	reg("nd.At", true, func(m *Machine, fi *fnInfo, a []Value) Value {
		// byte i of s, 0 beyond its end: no forking
		s, i := a[0].(*Str), int(m.goInt(a[1]))
		fl := m.c.flatten(s)
		if fl == nil {
			m.unsupported("nd.At of a long string")
		}
		if i >= len(fl.bytes) {
			return m.c.Const(8, 0)
		}
		if fl.n.isConst() {
			return fl.bytes[i]
		}
		return m.c.Ite(m.c.cmp(OpUlt, m.i64(int64(i)), fl.n), fl.bytes[i], m.c.Const(8, 0))
	})
	reg("nd.IfStr", true, func(m *Machine, fi *fnInfo, a []Value) Value {
		if r := m.c.iteStr(a[0].(*Term), a[1].(*Str), a[2].(*Str)); r != nil && m.spec == 0 {
			return r
		}
		if m.spec > 0 {
			panic(specFail{})
		}
		if m.branch(a[0].(*Term)) {
			return a[1]
		}
		return a[2]
	})
}

var _ = types.Typ

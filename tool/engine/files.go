package engine

import (
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// Files are modelled with an object that maps the paths to the content. When faults are enabled
// every operation can also fail.

const fsKey = "fs"

func (d *D) fs() int {
	if d.I.FSObj == 0 {
		d.I.undecided("there is no file system")
	}
	return d.I.FSObj
}

// InitFS creates the file system.
func (it *Interp) InitFS(st *State) {
	it.FSObj = st.Alloc(&MapV{})
}

// Fail decides if an operation fails, and returns the error.
func (d *D) Fail(what string) Value {
	if d.I.Fault != nil && d.I.Fault(d.S, what, d.site()) {
		return d.I.NewError(d.S, C("injected failure of "+what), nil)
	}
	return Nil{}
}

func (it *Interp) file(st *State, path string) (*Rope, bool) {
	m := st.Get(it.FSObj).(*MapV)
	for i, k := range m.K {
		if k.(Str).Render() == path {
			r, ok := m.V[i].(*Ext).X.(*Rope)
			return r, ok
		}
	}
	return nil, false
}

func (it *Interp) setFile(st *State, path string, r *Rope) {
	if it.OnChange != nil {
		it.OnChange(st, path)
	}
	it.MapSet(st, MapRef{Obj: it.FSObj}, C(path), &Ext{Kind: "file", X: r})
}

// Files returns the generated files.
func (it *Interp) Files(st *State) map[string]string {
	r := map[string]string{}
	m := st.Get(it.FSObj).(*MapV)
	for i, k := range m.K {
		if x, ok := m.V[i].(*Ext).X.(*Rope); ok {
			r[k.(Str).Render()] = x.Text().Render()
		}
	}
	return r
}

// File returns the content of a file.
func (it *Interp) File(st *State, path string) (string, bool) {
	r, ok := it.file(st, filepath.Clean(path))
	if !ok {
		return "", false
	}
	return r.Text().Render(), true
}

// PutFile adds a file.
func (it *Interp) PutFile(st *State, path, text string) {
	it.setFile(st, filepath.Clean(path), (*Rope)(nil).Add(C(text)))
}

// PutDir adds a directory.
func (it *Interp) PutDir(st *State, path string) {
	it.MapSet(st, MapRef{Obj: it.FSObj}, C(filepath.Clean(path)+"/"), &Ext{Kind: "dir"})
}

// NotExist creates the error returned when a file doesn't exist.
func (it *Interp) NotExist(st *State, path string) Value {
	var wrapped Value
	if p := it.Prog.ImportedPackage("io/fs"); p != nil {
		if g := p.Var("ErrNotExist"); g != nil {
			wrapped, _ = it.Load(st, it.GlobalAddr(st, g), nil)
		}
	}
	return it.NewError(st, C("open "+path+": no such file or directory"), wrapped)
}

// stat returns "file", "dir" or the empty string.
func (it *Interp) stat(st *State, path string) string {
	path = filepath.Clean(path)
	m := st.Get(it.FSObj).(*MapV)
	for _, k := range m.K {
		p := k.(Str).Render()
		if p == path {
			return "file"
		}
		if strings.HasPrefix(p, path+"/") {
			return "dir"
		}
	}
	return ""
}

func (it *Interp) list(st *State, path string) []string {
	path = filepath.Clean(path)
	m := st.Get(it.FSObj).(*MapV)
	set := map[string]int{}
	for _, k := range m.K {
		p := k.(Str).Render()
		if strings.HasPrefix(p, path+"/") {
			rest := strings.TrimPrefix(p, path+"/")
			if k := strings.Index(rest, "/"); k >= 0 {
				rest = rest[:k]
			}
			if rest != "" {
				set[rest] = 1
			}
		}
	}
	return SortedKeys(set)
}

func (d *D) fileInfo(path string) Value {
	id := d.S.Alloc(&Ext{Kind: "fileinfo", D: []Value{C(filepath.Base(path)), d.I.stat(d.S, path) == "dir"}})
	return Iface{T: types.NewPointer(d.I.LookupType("os", "fileStat")), V: Ptr{Obj: id}}
}

// FileTexts returns the generated files as symbolic texts.
func (it *Interp) FileTexts(st *State) map[string]Str {
	r := map[string]Str{}
	m := st.Get(it.FSObj).(*MapV)
	for i, k := range m.K {
		if x, ok := m.V[i].(*Ext).X.(*Rope); ok {
			r[k.(Str).Render()] = x.Text()
		}
	}
	return r
}

// FileNames returns the sorted names of the files.
func (it *Interp) FileNames(st *State) []string {
	var r []string
	for k := range it.Files(st) {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (d *D) path(v Value) string {
	s, ok := v.(Str)
	if !ok {
		d.I.undecided("unknown path")
	}
	return filepath.Clean(s.Render())
}

func init() {
	reg := func(name string, f func(d *D, a []Value) Value) { baseModels[name] = Direct(f) }
	open := func(d *D, path string, flags int64) Value {
		if err := d.Fail("open"); err != (Nil{}) {
			return Tuple{Nil{}, err}
		}
		const create, trunc, app = 0x40, 0x200, 0x400
		old, exists := d.I.file(d.S, path)
		if !exists && flags&create == 0 {
			return Tuple{Nil{}, d.I.NotExist(d.S, "file")}
		}
		if flags&trunc != 0 || !exists {
			d.I.setFile(d.S, path, nil)
			old = nil
		}
		_ = old
		_ = app
		p := Ptr{Obj: d.S.Alloc(&Ext{Kind: "os.File", D: []Value{C(path), false}})}
		return Tuple{p, Nil{}}
	}
	reg("os.OpenFile", func(d *D, a []Value) Value { return open(d, d.path(a[0]), a[1].(int64)) })
	reg("os.Create", func(d *D, a []Value) Value { return open(d, d.path(a[0]), 0x242) })
	reg("os.Open", func(d *D, a []Value) Value { return open(d, d.path(a[0]), 0) })
	mkdir := func(d *D, a []Value) Value {
		if err := d.Fail("mkdir"); err != (Nil{}) {
			return err
		}
		d.I.MapSet(d.S, MapRef{Obj: d.I.FSObj}, C(d.path(a[0])+"/"), &Ext{Kind: "dir"})
		return Nil{}
	}
	reg("os.MkdirAll", mkdir)
	reg("os.Mkdir", mkdir)
	write := func(d *D, p Value, s Str) Value {
		ptr, ok := p.(Ptr)
		if !ok {
			if _, isNil := p.(Nil); isNil {
				return Tuple{int64(0), d.I.NewError(d.S, C("invalid argument"), nil)}
			}
			// Standard output or error:
			name := "<stdout>"
			if y, ok := p.(Sym); ok && strings.Contains(y.Term, "os.Stderr") {
				name = "<stderr>"
			}
			old, _ := d.I.file(d.S, name)
			d.I.setFile(d.S, name, old.Add(s))
			return Tuple{strLen(s), Nil{}}
		}
		e := d.S.Get(ptr.Obj).(*Ext)
		if e.D[1] == true {
			return Tuple{int64(0), d.I.NewError(d.S, C("file already closed"), nil)}
		}
		if err := d.Fail("write"); err != (Nil{}) {
			return Tuple{int64(0), err}
		}
		path := e.D[0].(Str).Render()
		old, _ := d.I.file(d.S, path)
		d.I.setFile(d.S, path, old.Add(s))
		return Tuple{strLen(s), Nil{}}
	}
	reg("(*os.File).WriteString", func(d *D, a []Value) Value { return write(d, a[0], a[1].(Str)) })
	reg("(*os.File).Write", func(d *D, a []Value) Value { return write(d, a[0], d.I.bytesText(d.S, a[1])) })
	reg("(*os.File).Close", func(d *D, a []Value) Value {
		ptr, ok := a[0].(Ptr)
		if !ok {
			return d.I.NewError(d.S, C("invalid argument"), nil)
		}
		e := d.S.Get(ptr.Obj).(*Ext)
		if e.D[1] == true {
			return d.I.NewError(d.S, C("file already closed"), nil)
		}
		d.S.Set(ptr.Obj, &Ext{Kind: e.Kind, D: []Value{e.D[0], true}})
		return d.Fail("close")
	})
	reg("(*os.File).Sync", func(d *D, a []Value) Value { return d.Fail("sync") })
	reg("(*os.File).Name", func(d *D, a []Value) Value { return d.S.Get(a[0].(Ptr).Obj).(*Ext).D[0] })
	writeFile := func(d *D, a []Value) Value {
		if err := d.Fail("open"); err != (Nil{}) {
			return err
		}
		d.I.setFile(d.S, d.path(a[0]), (*Rope)(nil).Add(d.I.bytesText(d.S, a[1])))
		return Nil{}
	}
	reg("os.WriteFile", writeFile)
	reg("io/ioutil.WriteFile", writeFile)
	readFile := func(d *D, a []Value) Value {
		if err := d.Fail("read"); err != (Nil{}) {
			return Tuple{Nil{}, err}
		}
		r, ok := d.I.file(d.S, d.path(a[0]))
		if !ok {
			return Tuple{Nil{}, d.I.NotExist(d.S, "file")}
		}
		return Tuple{d.I.TextBytes(d.S, r.Text()), Nil{}}
	}
	reg("os.ReadFile", readFile)
	reg("io/ioutil.ReadFile", readFile)
	remove := func(d *D, a []Value) Value {
		if err := d.Fail("remove"); err != (Nil{}) {
			return err
		}
		path := d.path(a[0])
		m := d.S.Get(d.I.FSObj).(*MapV)
		n := &MapV{}
		for i, k := range m.K {
			p := k.(Str).Render()
			if p == path || strings.HasPrefix(p, path+"/") {
				continue
			}
			n.K = append(n.K, k)
			n.V = append(n.V, m.V[i])
		}
		d.S.Set(d.I.FSObj, n)
		return Nil{}
	}
	reg("os.Remove", remove)
	reg("os.RemoveAll", remove)
	reg("os.Rename", func(d *D, a []Value) Value {
		if err := d.Fail("rename"); err != (Nil{}) {
			return err
		}
		from, to := d.path(a[0]), d.path(a[1])
		r, _ := d.I.file(d.S, from)
		d.I.setFile(d.S, to, r)
		m := d.S.Get(d.I.FSObj).(*MapV)
		n := &MapV{}
		for i, k := range m.K {
			if k.(Str).Render() != from {
				n.K = append(n.K, k)
				n.V = append(n.V, m.V[i])
			}
		}
		d.S.Set(d.I.FSObj, n)
		return Nil{}
	})
	reg("path/filepath.Abs", func(d *D, a []Value) Value {
		if err := d.Fail("abs"); err != (Nil{}) {
			return Tuple{Str{}, err}
		}
		s := a[0].(Str)
		if c, ok := s.Const(); ok && !strings.HasPrefix(c, "/") {
			return Tuple{C(filepath.Join("/work", c)), Nil{}}
		}
		return Tuple{s, Nil{}}
	})
	stat := func(d *D, a []Value) Value {
		if err := d.Fail("stat"); err != (Nil{}) {
			return Tuple{Nil{}, err}
		}
		path := d.path(a[0])
		if d.I.stat(d.S, path) == "" {
			return Tuple{Nil{}, d.I.NotExist(d.S, path)}
		}
		return Tuple{d.fileInfo(path), Nil{}}
	}
	reg("os.Stat", stat)
	reg("os.Lstat", stat)
	reg("os.IsNotExist", func(d *D, a []Value) Value {
		i, ok := a[0].(Iface)
		if !ok {
			return false
		}
		return strings.Contains(d.I.ErrorText(d.S, i).Render(), "no such file")
	})
	info := func(d *D, v Value) *Ext { return d.S.Get(v.(Ptr).Obj).(*Ext) }
	reg("fileinfo.Name", func(d *D, a []Value) Value { return info(d, a[0]).D[0] })
	reg("fileinfo.IsDir", func(d *D, a []Value) Value { return info(d, a[0]).D[1] })
	reg("fileinfo.Info", func(d *D, a []Value) Value {
		return Tuple{Iface{T: types.NewPointer(d.I.LookupType("os", "fileStat")), V: a[0]}, d.Fail("info")}
	})
	mode := func(d *D, a []Value) Value {
		if info(d, a[0]).D[1] == true {
			return int64(1<<31 | 0755)
		}
		return int64(0644)
	}
	reg("fileinfo.Mode", mode)
	reg("fileinfo.Type", func(d *D, a []Value) Value { return mode(d, a).(int64) &^ 0777 })
	reg("fileinfo.Size", func(d *D, a []Value) Value { return Sym{Term: d.S.Fresh(":size"), T: types.Typ[types.Int64]} })
	readDir := func(d *D, a []Value) Value {
		if err := d.Fail("readdir"); err != (Nil{}) {
			return Tuple{Nil{}, err}
		}
		path := d.path(a[0])
		switch d.I.stat(d.S, path) {
		case "":
			return Tuple{Nil{}, d.I.NotExist(d.S, path)}
		case "file":
			return Tuple{Nil{}, d.I.NewError(d.S, C("not a directory"), nil)}
		}
		var l []Value
		for _, n := range d.I.list(d.S, path) {
			l = append(l, d.fileInfo(path+"/"+n))
		}
		return Tuple{d.I.MakeSlice(d.S, l), Nil{}}
	}
	reg("os.ReadDir", readDir)
	reg("io/ioutil.ReadDir", readDir)
	var walk func(d *D, path string, fn Value) Value
	walk = func(d *D, path string, fn Value) Value {
		if d.I.stat(d.S, path) == "" {
			return d.CallValue(fn, C(path), Nil{}, d.I.NotExist(d.S, path))
		}
		if err := d.Fail("walk"); err != (Nil{}) {
			return d.CallValue(fn, C(path), d.fileInfo(path), err)
		}
		err := d.CallValue(fn, C(path), d.fileInfo(path), Nil{})
		if _, isNil := err.(Nil); !isNil {
			if strings.Contains(d.I.ErrorText(d.S, err).Render(), "filepath.SkipDir") {
				return Nil{}
			}
			return err
		}
		if d.I.stat(d.S, path) == "dir" {
			for _, n := range d.I.list(d.S, path) {
				if err := walk(d, path+"/"+n, fn); err != (Nil{}) {
					return err
				}
			}
		}
		return Nil{}
	}
	reg("path/filepath.Walk", func(d *D, a []Value) Value { return walk(d, d.path(a[0]), a[1]) })
	reg("path/filepath.WalkDir", func(d *D, a []Value) Value { return walk(d, d.path(a[0]), a[1]) })
	_ = types.Universe
}

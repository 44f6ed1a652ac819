package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/icon-project/btp/common/config"

	"verifharness/internal/mon"
)

type fileCfg struct {
	config.FileConfig `json:",squash"`
	Name              string            `json:"name,omitempty"`
	List              []int             `json:"list,omitempty"`
	Map               map[string]string `json:"map,omitempty"`
}

// f01file uses the configuration package itself: what is saved is loaded, and
// relative paths mean those beside the configuration's file.
func f01file(k *mon.Case) {
	root := scratch()
	defer os.RemoveAll(root)
	root, _ = filepath.EvalSymlinks(root)
	for _, d := range []string{"a/b", "c"} {
		os.MkdirAll(filepath.Join(root, d), 0755)
	}
	wd, _ := os.Getwd()
	rel := func(p string) string { r, _ := filepath.Rel(wd, p); return r }
	dirs := []string{root, filepath.Join(root, "a"), filepath.Join(root, "a", "b"), filepath.Join(root, "c")}
	var cur *fileCfg
	cur = &fileCfg{}
	curPath := ""
	want := map[string]fileCfg{}
	for i, n := 0, 2+k.Intn(5); i < n && !k.Failed(); i++ {
		at := filepath.Join(dirs[k.Intn(4)], []string{"x.json", "y"}[k.Intn(2)])
		name := at
		switch k.Intn(3) {
		case 0:
			if curPath == "" {
				name = rel(at)
			} else {
				name, _ = filepath.Rel(filepath.Dir(curPath), at)
			}
		}
		if _, ok := want[at]; ok && k.Intn(2) == 0 {
			c := &fileCfg{}
			c.FilePath = curPath
			if err := config.Load(c, name); err != nil {
				k.Fail("file-load", "%s: %v", name, err)
				return
			}
			w := want[at]
			w.FilePath = at
			if !reflect.DeepEqual(*c, w) {
				k.Fail("file-loaded", "%s: %+v, saved %+v", name, *c, w)
			}
			cur, curPath = c, at
		} else {
			cur.Name = strings.Repeat("n", k.Intn(3)*k.Intn(50))
			cur.BaseDir = []string{"", "data", "../d", filepath.Join(root, "abs")}[k.Intn(4)]
			cur.List, cur.Map = nil, nil
			for j := k.Intn(4); j > 0; j-- {
				cur.List = append(cur.List, k.Intn(1000))
			}
			if k.Intn(2) == 0 {
				cur.Map = map[string]string{"k": "v\"<>&", "": "e"}
			}
			if err := config.Save(cur, name); err != nil {
				k.Fail("file-save", "%s: %v", name, err)
				return
			}
			b, err := os.ReadFile(at)
			var m map[string]interface{}
			if err == nil {
				err = json.Unmarshal(b, &m)
			}
			if err != nil {
				k.Fail("file-saved", "%s: %v: %.300s", at, err, b)
				return
			}
			want[at] = *cur
			curPath = at
		}
		if cur.FilePath != curPath {
			k.Fail("file-path", "%q, want %q", cur.FilePath, curPath)
		}
		dir := filepath.Dir(curPath)
		for _, p := range []string{"z", "../z", "a/./z", filepath.Join(root, "c", "z"), ""} {
			w := filepath.Join(dir, p)
			if filepath.IsAbs(p) {
				w = p
			}
			if got := cur.ResolveAbsolute(p); got != w {
				k.Fail("file-absolute", "%q of %s is %q, want %q", p, curPath, got, w)
			}
		}
		base := cur.BaseDir
		if !filepath.IsAbs(base) {
			base = filepath.Join(dir, base)
		}
		if cur.AbsBaseDir() != base {
			k.Fail("file-base", "%q, want %q", cur.AbsBaseDir(), base)
		}
		for _, p := range []string{filepath.Join(root, "c", "z"), filepath.Join(dir, "z"), dir, "/z", rel(filepath.Join(dir, "q"))} {
			r := cur.ResolveRelative(p)
			ap, _ := filepath.Abs(p)
			if filepath.IsAbs(r) || cur.ResolveAbsolute(r) != ap {
				k.Fail("file-relative", "%q becomes %q, which means %q", p, r, cur.ResolveAbsolute(r))
			}
		}
	}
	if err := config.Load(&fileCfg{}, filepath.Join(root, "missing")); err == nil {
		k.Fail("file-missing", "a file that does not exist was loaded")
	}
	bad := filepath.Join(root, "bad")
	write(bad, []byte(`{"name":`))
	if err := config.Load(&fileCfg{}, bad); err == nil {
		k.Fail("file-bad", "half a file was loaded")
	}
	k.Seen("%d %v", k.I, want)
}

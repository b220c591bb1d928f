// Command prep makes the simulated build of go-slog.
//
// It reads the current sources of /repo, writes an instrumented copy of them into an output
// directory, and an overlay file and a go.mod that make the go command build that copy in place of
// the originals.  Nothing under /repo changes.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "/verif", "this framework")
	out := flag.String("out", "", "output directory")
	goroot := flag.String("goroot", "", "GOROOT")
	flag.Parse()
	if err := run(*repo, *verif, *out, *goroot); err != nil {
		fmt.Fprintln(os.Stderr, "prep:", err)
		os.Exit(2)
	}
}

func run(repo, verif, out, goroot string) error {
	overlay := make(map[string]string)
	if err := patchStd(goroot, out, overlay); err != nil {
		return err
	}
	r := &rewriter{}
	var dirs []string
	err := filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if n := d.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "docs" || n == "scripts") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	sort.Strings(dirs)
	for _, dir := range dirs {
		rel, _ := filepath.Rel(repo, dir)
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		var global, resets []string
		globalPkg := ""
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			path := filepath.Join(dir, n)
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			o := pkgOpts{}
			text, err := r.file(path, src, filepath.Join(rel, n), o)
			if err != nil {
				return err
			}
			if err := put(out, filepath.Join("src", rel, n), path, text, overlay); err != nil {
				return err
			}
			pkg, vars, err := globals(path, src)
			if err != nil {
				return err
			}
			if pkg != "main" {
				global = append(global, vars...)
				globalPkg = pkg
			}
			// The commands are package main: a copy under internal/ makes them callable.
			if rel == "cmd/server" || rel == "cmd/tabular" {
				pkg := "z" + filepath.Base(rel)
				again := fmt.Sprintf("zInit%d", len(resets))
				text, err := r.file(path, src, filepath.Join(rel, n), pkgOpts{rename: pkg, idents: map[string]string{"main": "ZMain", "init": again}})
				if err != nil {
					return err
				}
				body, err := reset(path, src, again)
				if err != nil {
					return err
				}
				fn := fmt.Sprintf("zReset%d", len(resets))
				resets = append(resets, fn)
				text += "\n\nfunc " + fn + "() {\n" + body + "}\n"
				if err := put(out, filepath.Join("src/internal", pkg, n), filepath.Join(repo, "internal", pkg, n), text, overlay); err != nil {
					return err
				}
			}
		}
		if len(resets) > 0 {
			// A command starts anew with every execution: its variables get their first values again.
			pkg := "z" + filepath.Base(rel)
			text := "package " + pkg + "\n\n// ZReset makes the package as it is when a process starts.\nfunc ZReset() {\n"
			for _, f := range resets {
				text += "\t" + f + "()\n"
			}
			text += "}\n"
			if err := put(out, filepath.Join("src/internal", pkg, "zreset.go"), filepath.Join(repo, "internal", pkg, "zreset.go"), text, overlay); err != nil {
				return err
			}
		}
		// The package-level variables of the packages that the harnesses run again and again.
		if len(global) > 0 {
			sort.Strings(global)
			text := "package " + globalPkg + "\n\nimport zsim \"" + zsimPath + "\"\n\nfunc init() {\n\tzsim.Globals(\n"
			for _, v := range global {
				text += "\t\t&" + v + ",\n"
			}
			text += "\t)\n}\n"
			if err := put(out, filepath.Join("src", rel, "zsim_globals.go"), filepath.Join(repo, rel, "zsim_globals.go"), text, overlay); err != nil {
				return err
			}
		}
	}
	// The simulator and the harnesses.
	for _, m := range [][2]string{{"sim", "internal/zsim"}, {"harness/core", "internal/zcore"},
		{"harness/handlers", "internal/zhandlers"}, {"harness/web", "internal/zweb"},
		{"harness/suites", "internal/zsuites"}, {"harness/cmd_suites", "cmd/zsim_suites"},
		{"harness/cmd_handlers", "cmd/zsim_handlers"}, {"harness/cmd_web", "cmd/zsim_web"}} {
		ents, err := os.ReadDir(filepath.Join(verif, m[0]))
		if err != nil {
			continue
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(repo, m[1], e.Name())] = filepath.Join(verif, m[0], e.Name())
			}
		}
	}
	var sites strings.Builder
	fmt.Fprintf(&sites, "package zsim\n\n// Sites are the pre-emption points in the code under test.\nvar Sites = [...]string{\n")
	for _, s := range r.sites {
		fmt.Fprintf(&sites, "\t%q,\n", s)
	}
	sites.WriteString("}\n")
	if err := put(out, "src/internal/zsim/sites.go", filepath.Join(repo, "internal/zsim/sites.go"), sites.String(), overlay); err != nil {
		return err
	}
	// go.mod with the modules that are absent here replaced by stubs.
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	text := string(mod) + "\n// added by the simulator\nreplace (\n"
	stubs, _ := os.ReadDir(filepath.Join(verif, "stubs"))
	for _, s := range stubs {
		path, err := os.ReadFile(filepath.Join(verif, "stubs", s.Name(), "MODULE"))
		if err != nil {
			continue
		}
		text += fmt.Sprintf("\t%s => %s\n", strings.TrimSpace(string(path)), filepath.Join(verif, "stubs", s.Name()))
	}
	text += ")\n"
	if err := os.WriteFile(filepath.Join(out, "go.mod"), []byte(text), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(out, "go.sum"), sum, 0o644); err != nil {
		return err
	}
	raw, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "overlay.json"), raw, 0o644)
}

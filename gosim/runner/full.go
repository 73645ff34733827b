package main

import (
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"

	"gosim/wire"
)

// fullProject is the repository's own library, as it is in the working tree.
var fullProject *Project

var reCmd = regexp.MustCompile(`\(cmd\s+(\S+)\s+:code\s+(:source|:test|:doc)\s+(?::lang\s+:(\S+)\s+)?:path\s+([^\s)]+)`)

func loadFull(repo string) error {
	p := &Project{Root: "/w/vxlisp", Cwd: "/w/cwd", Img: wire.Image{}, Full: true}
	src := filepath.Join(repo, "dist/vxlisp")
	mkdir(p.Img, p.Cwd)
	put(p.Img, "/w/other/keep.txt", "keep")
	err := filepath.WalkDir(src, func(f string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, f)
		if d.IsDir() {
			if rel != "." {
				mkdir(p.Img, p.Root+"/"+rel)
			}
			return nil
		}
		if !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		put(p.Img, p.Root+"/"+rel, string(b))
		return nil
	})
	if err != nil {
		return err
	}
	e := p.Img[p.Root+"/project.vxlisp"]
	if e == nil {
		return nil
	}
	for _, m := range reCmd.FindAllStringSubmatch(string(e.Data), -1) {
		if m[1] == "srcswift" {
			continue // generating it fails for the library as it stands
		}
		d := path.Join(p.Root, strings.Trim(m[4], `"`))
		c := Cmd{Name: m[1], Code: m[2], Lang: m[3], Path: m[4], Dirs: []string{d}}
		if c.Code == ":test" {
			switch c.Lang {
			case "cpp":
				c.Dirs = append(c.Dirs, path.Dir(d)+"/test/resources")
			case "java":
				c.Dirs = append(c.Dirs, path.Dir(d)+"/resources")
			}
		}
		p.Cmds = append(p.Cmds, c)
	}
	if len(p.Cmds) > 0 {
		fullProject = p
	}
	return nil
}

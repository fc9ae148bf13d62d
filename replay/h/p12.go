package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"net"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/utils"
)

func sum1(s string) string { return fmt.Sprintf("%x", sha1.Sum([]byte(s))) }

// oracle for ignore patterns, from the documentation of the patterns
func ignored(p string, pats []string) bool {
	d, f := path.Split(p)
	for _, pat := range pats {
		if strings.HasPrefix(pat, "**") && strings.Contains(pat, "/") {
			pd, pf := path.Split(pat[2:])
			if pf == f && pf != "" && (pd == "/" || strings.Contains(d, pd)) {
				return true
			}
			if pf == "" && strings.Contains(d, pd) {
				return true
			}
			continue
		}
		if pd, pf := path.Split(pat); pf != "" {
			if p == pat {
				return true
			}
		} else if strings.HasPrefix(d, pd) {
			return true
		}
	}
	return false
}

func (c *Ctx) patterns(names []string) []string {
	var out []string
	for i := c.Intn(4); i > 0; i-- {
		n := c.pick(names...)
		d, f := path.Split(n)
		switch c.Intn(9) {
		case 0:
			out = append(out, n)
		case 1:
			out = append(out, d)
		case 2:
			out = append(out, "**/"+f)
		case 3:
			out = append(out, "**"+d+f)
		case 4:
			out = append(out, "**"+d)
		case 5:
			if i := strings.LastIndex(strings.TrimSuffix(d, "/"), "/"); i >= 0 {
				out = append(out, "**"+d[i:], "**"+d[i:]+f)
			}
		case 6:
			out = append(out, c.str())
		case 7:
			out = append(out, n+"x", strings.TrimSuffix(d, "/"))
		case 8:
			out = append(out, c.pick("/", "**/", "", "*", "**", "**/*", "/.", "./"))
		}
	}
	return out
}

func init() {
	table["P12"] = func(c *Ctx) string {
		names := append(c.pool(3), "./a", "")
		vals := []string{"", "a", "b", "ab", "aa", "9", "A", sum1("x"), sum1("y")}
		var fs []*spdx.File
		in := ""
		anyNil := false
		for i := c.Intn(6); i > 0; i-- {
			if c.p(25) {
				fs = append(fs, nil)
				anyNil = true
				in += " nil"
				continue
			}
			f := &spdx.File{FileName: c.pick(names...)}
			for j := c.Intn(4); j > 0; j-- {
				f.Checksums = append(f.Checksums, spdx.Checksum{Algorithm: common.ChecksumAlgorithm(c.pick("SHA1", "SHA1", "SHA256", "MD5", "sha1", "")), Value: c.pick(vals...)})
			}
			if c.p(3) {
				f.LicenseConcluded = c.str()
			}
			fs = append(fs, f)
			in += fmt.Sprintf(" %q%v", f.FileName, f.Checksums)
		}
		ex := c.pick(names...)
		current = fmt.Sprintf("GetVerificationCode([%s], %q)", in, ex)
		got, err := utils.GetVerificationCode(fs, ex)
		if anyNil {
			if err == nil || got.Value != "" || len(got.ExcludedFiles) > 0 {
				return fmt.Sprintf("%s = %v, %v; want an error and the empty code", current, got, err)
			}
			return ""
		}
		var shas []string
		for _, f := range fs {
			if f.FileName == ex {
				continue
			}
			for _, k := range f.Checksums {
				if k.Algorithm == "SHA1" {
					shas = append(shas, k.Value)
				}
			}
		}
		sort.Strings(shas)
		want := sum1(strings.Join(shas, ""))
		var wex []string
		if ex != "" {
			wex = []string{ex}
		}
		if err != nil || got.Value != want || len(got.ExcludedFiles) != len(wex) || len(wex) == 1 && got.ExcludedFiles[0] != ex {
			return fmt.Sprintf("%s = %v, %v; want %s %q", current, got, err, want, wex)
		}
		return ""
	}
	table["P13"] = func(c *Ctx) string {
		segs := append([]string{"a", "b", "sub", "s", "ub", "a.go", "b.c", "license"}, c.word())
		mk := func() string {
			s := ""
			for i := c.Intn(4); i >= 0; i-- {
				s += "/" + c.pick(segs...)
			}
			return s
		}
		names := []string{mk(), mk(), mk()}
		p := names[0]
		if c.p(10) {
			p = c.str()
		}
		pats := c.patterns(names)
		current = fmt.Sprintf("ShouldIgnore(%q, %q)", p, pats)
		if got, want := utils.ShouldIgnore(p, pats), ignored(p, pats); got != want {
			return fmt.Sprintf("%s = %v, want %v", current, got, want)
		}
		return ""
	}
	table["P14"] = func(c *Ctx) string { return buildCase(c, nil) }
}

// tree makes a directory with files, sub-directories and links; it returns the root and the contents by name.
func (c *Ctx) tree(content func() string) (root string, files map[string]string, order []string) {
	c.scr++
	root = filepath.Join(c.dir, fmt.Sprintf("t%d_%d", c.n, c.scr))
	os.MkdirAll(root, 0o755)
	files = map[string]string{}
	segs := []string{"a", "b", "sub", "z.go", "lic.txt", "A", "a.c", "Z", "é", "a-b", "a b"}
	for i := c.Intn(6); i > 0; i-- {
		p := ""
		for j := c.Intn(3); j >= 0; j-- {
			p += "/" + c.pick(segs...)
		}
		if c.p(6) {
			os.MkdirAll(root+p, 0o755)
			continue
		}
		if os.MkdirAll(filepath.Dir(root+p), 0o755) != nil {
			continue
		}
		if c.p(7) {
			os.Symlink("/dev/null", root+p)
			continue
		}
		if _, err := os.Lstat(root + p); err == nil {
			continue
		}
		s := content()
		if os.WriteFile(root+p, []byte(s), 0o644) == nil {
			files[p] = s
		}
	}
	if c.p(12) && os.MkdirAll(filepath.Join(root, root, "q"), 0o755) == nil {
		p := root + "/q/w"
		if os.WriteFile(root+p, []byte("n"), 0o644) == nil {
			files[p] = "n"
		}
	}
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			order = append(order, strings.TrimPrefix(p, root))
		}
		return nil
	})
	return
}

func buildCase(c *Ctx, _ any) string {
	root, files, order := c.tree(c.str)
	defer os.RemoveAll(root)
	pats := c.patterns(append(order, "/a", "/sub/b"))
	if c.p(3) {
		pats = nil
	}
	cfg := &builder.Config{NamespacePrefix: c.str(), CreatorType: c.pick("Person", "Organization", "Tool", c.str()), Creator: c.str(), PathsIgnored: pats}
	if c.p(2) {
		cfg.TestValues = map[string]string{"Created": c.pick("2018-10-10T06:20:00Z", c.str())}
	}
	name := c.str()
	current = fmt.Sprintf("Build(%q, dir with %q, %+v)", name, order, cfg)
	bad := func(f string, a ...any) string { return current + ": " + fmt.Sprintf(f, a...) }
	arg := root
	if c.p(4) {
		arg += "/"
	}
	if c.p(20) {
		doc, err := builder.Build(name, root+"/nosuch", cfg)
		if doc != nil || err == nil {
			return bad("no error for a missing directory")
		}
	}
	if c.p(15) {
		if l, err := net.Listen("unix", root+"/sck"); err == nil {
			doc, err := builder.Build(name, arg, &builder.Config{})
			l.Close()
			os.Remove(root + "/sck")
			if doc != nil || err == nil {
				return bad("no error although the listed file sck cannot be read")
			}
		}
	}
	doc, err := builder.Build(name, arg, cfg)
	if err != nil || doc == nil {
		return bad("%v, %v", doc, err)
	}
	var want []string
	for _, p := range order {
		if !ignored(p, pats) {
			want = append(want, p)
		}
	}
	if len(doc.Packages) != 1 || doc.Packages[0] == nil {
		return bad("packages %v", doc.Packages)
	}
	pkg := doc.Packages[0]
	if len(pkg.Files) != len(want) {
		return bad("%d files, want %q", len(pkg.Files), want)
	}
	var shas []string
	for i, p := range want {
		f := pkg.Files[i]
		s := files[p]
		shas = append(shas, sum1(s))
		w := &spdx.File{FileName: "." + p, FileSPDXIdentifier: common.ElementID(fmt.Sprintf("File%d", i)), Checksums: []spdx.Checksum{{Algorithm: "SHA1", Value: sum1(s)}, {Algorithm: "SHA256", Value: fmt.Sprintf("%x", sha256.Sum256([]byte(s)))}, {Algorithm: "MD5", Value: fmt.Sprintf("%x", md5.Sum([]byte(s)))}}, LicenseConcluded: "NOASSERTION", LicenseInfoInFiles: []string{"NOASSERTION"}, FileCopyrightText: "NOASSERTION"}
		if !reflect.DeepEqual(f, w) {
			return bad("file %d is %+v, want %+v", i, f, w)
		}
	}
	sort.Strings(shas)
	code := sum1(strings.Join(shas, ""))
	if pkg.PackageVerificationCode == nil || pkg.PackageVerificationCode.Value != code || len(pkg.PackageVerificationCode.ExcludedFiles) != 0 {
		return bad("verification code %v, want %s", pkg.PackageVerificationCode, code)
	}
	pid := common.ElementID("Package-" + name)
	if pkg.PackageName != name || pkg.PackageSPDXIdentifier != pid || !pkg.FilesAnalyzed || pkg.PackageLicenseConcluded != "NOASSERTION" || pkg.PackageLicenseDeclared != "NOASSERTION" || pkg.PackageCopyrightText != "NOASSERTION" || pkg.PackageDownloadLocation != "NOASSERTION" {
		return bad("package %+v", pkg)
	}
	if doc.SPDXVersion != spdx.Version || doc.SPDXIdentifier != "DOCUMENT" || doc.DocumentName != name || doc.DataLicense != spdx.DataLicense || doc.CreationInfo == nil {
		return bad("document %+v", doc)
	}
	ct := cfg.CreatorType
	okc := false
	for _, k := range doc.CreationInfo.Creators {
		okc = okc || k.Creator == cfg.Creator && k.CreatorType == ct
	}
	if !okc {
		return bad("creators %+v", doc.CreationInfo.Creators)
	}
	if v := cfg.TestValues["Created"]; v != "" && doc.CreationInfo.Created != v {
		return bad("created %q", doc.CreationInfo.Created)
	}
	if len(doc.Relationships) != 1 || doc.Relationships[0] == nil || doc.Relationships[0].Relationship != "DESCRIBES" || doc.Relationships[0].RefA != common.MakeDocElementID("", "DOCUMENT") || doc.Relationships[0].RefB != common.MakeDocElementID("", string(pid)) {
		return bad("relationships %+v", doc.Relationships)
	}
	return ""
}

package utils

import (
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	v "github.com/spdx/tools-golang/verifspec"
)

func zz_hash(alg, data string) string {
	return v.Uninterp[string]("hex", v.Uninterp[string](alg, data))
}

// P12
func zzc_GetVerificationCode(files []*spdx.File, excludeFile string) {
	v.Spec(func() (common.PackageVerificationCode, error) {
		var shas []string
		for _, f := range files {
			if f == nil {
				return common.PackageVerificationCode{}, v.Fail()
			}
			if f.FileName == excludeFile {
				continue
			}
			for _, c := range f.Checksums {
				if c.Algorithm == "SHA1" {
					shas = append(shas, c.Value)
				}
			}
		}
		sort.Strings(shas)
		code := common.PackageVerificationCode{Value: zz_hash("sha1", strings.Join(shas, ""))}
		if excludeFile != "" {
			code.ExcludedFiles = []string{excludeFile}
		}
		return code, nil
	})
}

// zz_matches: a pattern matches a path (P13).
func zz_matches(fileName, pattern string) bool {
	dir, file := path.Split(fileName)
	pdir, pfile := path.Split(pattern)
	if !strings.HasPrefix(pdir, "**") {
		if pfile == "" {
			return strings.HasPrefix(dir, pdir)
		}
		return pdir == dir && pfile == file
	}
	rest := strings.TrimPrefix(pdir, "**")
	if pfile == "" {
		return strings.Contains(dir, rest)
	}
	return pfile == file && (rest == "/" || strings.Contains(dir, rest))
}

// P13
func zzc_ShouldIgnore(fileName string, pathsIgnored []string) {
	v.Opaque()
	v.Spec(func() bool {
		for _, p := range pathsIgnored {
			if zz_matches(fileName, p) {
				return true
			}
		}
		return false
	})
	v.Known(len(pathsIgnored) == 0, false)
	// some pattern matches: independent of their order
	v.Ensures(func(r bool) bool {
		return r == v.Some(func(i int) bool {
			return 0 <= i && i < len(pathsIgnored) && zz_matches(fileName, pathsIgnored[i])
		})
	})
}

// P14: the digests of the file's content.
func zzc_GetHashesForFilePath(p string) {
	v.Opaque()
	v.Spec(func() (string, string, string, error) {
		name := filepath.FromSlash(p)
		if v.Uninterp[bool]("openfails", name) || v.Uninterp[error]("readerr", name) != nil {
			return "", "", "", v.Fail()
		}
		data := v.Uninterp[string]("filedata", name)
		return zz_hash("sha1", data), zz_hash("sha256", data), zz_hash("md5", data), nil
	})
}

// P14: in walk order, every entry that is neither a directory, nor a symbolic link, nor ignored; relative, starting
// with a slash.
func zzc_GetAllFilePaths(dirRoot string, pathsIgnored []string) {
	v.Opaque()
	v.Spec(func() ([]string, error) {
		root, err := filepath.Abs(dirRoot)
		if err != nil {
			return nil, v.Fail()
		}
		prefix := strings.TrimSuffix(filepath.ToSlash(root), "/")
		var out []string
		n := v.Uninterp[int]("i!walk.n", root)
		for i := 0; i < n; i++ {
			if v.Uninterp[error]("walk.err", root, i) != nil {
				return nil, v.Fail()
			}
			fi := v.Uninterp[os.FileInfo]("walk.info", root, i)
			if fi.IsDir() || fi.Mode()&os.ModeSymlink != 0 {
				continue
			}
			short := strings.TrimPrefix(filepath.ToSlash(v.Uninterp[string]("walk.path", root, i)), prefix)
			if !strings.HasPrefix(short, "/") {
				short = "/" + short
			}
			if !ShouldIgnore(short, pathsIgnored) {
				out = append(out, short)
			}
		}
		return out, nil
	})
}

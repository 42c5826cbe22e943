// Package gg holds contracts of the code generator.
package gg

import (
	"strings"

	"github.com/woven-planet/go-zserio/internal/generator"
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
)

var fileNames = []string{"a", "a_1", "a_b_c", "a_b_d", "abcdefgh", "a_1_1", "abcdefgi"}

// Sequences of requests: every path is new, within the limit, and the plain
// name if that is free and short enough.
//
//gocv:harness prop=C16 param=limit:0..3 param=first:0..6 time=200 bounded="sequences of 4 requests of 7 names in 2 directories, 4 limits"
func HUniquePaths() {
	limit := []int{0, 14, 16, 30}[cv.Param("limit")]
	generator.ZVForget()
	var used []string
	n := 4
	for i := 0; i < n; i++ {
		f := cv.Param("first")
		dir := "/o/p"
		if i > 0 {
			f = cv.Choose("name", 0, len(fileNames)-1)
			dir = []string{"/o/p", "/o/q"}[cv.Choose("dir", 0, 1)]
		}
		request(&used, dir, fileNames[f], limit)
	}
}

func request(used *[]string, dir, fn string, limit int) {
	p, err := generator.ZVUniquePath(dir, fn, limit)
	if err != nil {
		cv.Ensures(limit > 0, "fails only because of the limit")
		return
	}
	free := true
	for _, u := range *used {
		cv.Ensures(u != p, "every path is used once")
		free = free && u != dir+"/"+fn+".go"
	}
	cv.Ensures(limit == 0 || len(p) <= limit, "within the limit")
	cv.Ensures(strings.HasPrefix(p, dir+"/") && strings.HasSuffix(p, ".go") && len(p) > len(dir)+4 &&
		!strings.Contains(p[len(dir)+1:], "/"), "a Go file in the directory of the package")
	if free && (limit == 0 || len(dir)+1+len(fn)+generator.FileSuffixLength <= limit) {
		cv.Ensures(p == dir+"/"+fn+".go", "the name itself if possible")
	}
	*used = append(*used, p)
}

// The same name over and over again gets ever new names, or an error.
//
//gocv:harness prop=C16 param=limit:0..4 time=100 bounded="130 requests of one name"
func HManyPaths() {
	limit := []int{0, 12, 13, 14, 15}[cv.Param("limit")]
	generator.ZVForget()
	var used []string
	for i := 0; i < 130; i++ {
		request(&used, "/o/p", "a_bc", limit)
	}
	if limit == 0 {
		cv.Ensures(len(used) == 130, "never fails without a limit")
	}
}

// A limit that leaves no room for a file name is an error.
//
//gocv:harness prop=C16
func HTooShort() {
	limit := cv.Any[int]("limit")
	cv.Requires(limit > 0 && limit < 11)
	generator.ZVForget()
	var err error
	ok := cv.NoPanic(func() { _, err = generator.ZVUniquePath("/o/p", "abc", limit) })
	cv.Ensures(ok && err != nil, "an error")
}

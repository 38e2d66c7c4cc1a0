// Package fonts gives the real fonts: those of the repository's testdata, copied
// here when the checks are built, and the Go fonts of golang.org/x/image.
package fonts

import (
	"embed"

	"golang.org/x/image/font/gofont/gobolditalic"
	"golang.org/x/image/font/gofont/gomono"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/gofont/gosmallcaps"
)

//go:embed *.ttf
var fs embed.FS

// Names lists the fonts.
var Names = []string{"luxisr", "luximr", "luxirr", "goregular", "gomono", "gobolditalic", "gosmallcaps"}

// Get returns a font's bytes, which must not be changed.
func Get(name string) []byte {
	switch name {
	case "goregular":
		return goregular.TTF
	case "gomono":
		return gomono.TTF
	case "gobolditalic":
		return gobolditalic.TTF
	case "gosmallcaps":
		return gosmallcaps.TTF
	}
	b, err := fs.ReadFile(name + ".ttf")
	if err != nil {
		panic(err)
	}
	return b
}

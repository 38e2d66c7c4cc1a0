package props

import (
	"sort"

	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/simrt"
)

type swt = simrt.Switch

var all []*core.Check

func register(c *core.Check) { all = append(all, c) }

// All returns the checks in order.
func All() []*core.Check {
	sort.Slice(all, func(i, j int) bool { return all[i].ID < all[j].ID })
	return all
}

// Get returns the check of a property.
func Get(id string) *core.Check {
	for _, c := range all {
		if c.ID == id {
			return c
		}
	}
	return nil
}

var realAll = []string{"truetype (parser, glyph loader, hinting interpreter, faces)", "raster (rasterizer, stroker, painters, paths)", "freetype (drawing contexts)", "image/draw and golang.org/x/image/font (unmodified)"}

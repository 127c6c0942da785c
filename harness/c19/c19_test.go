package c19

import (
	"testing"

	"github.com/RenatoGeh/gospn/learn/poon"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

// size makes poon use images of w by h: Structure takes the dimensions from sys. With a resolution
// larger than the image it creates no region and fails on the missing root, after the dimensions
// have been set.
func size(w, h int) {
	sys.Width, sys.Height = w, h
	defer func() { recover() }()
	poon.Structure(nil, 1, 1, w+h+1)
}

type rect struct{ x1, y1, x2, y2 int }

func trip(w, h int, a rect, seen map[uint64]rect) string {
	k := poon.Encode(a.x1, a.y1, a.x2, a.y2)
	x1, y1, x2, y2 := poon.Decode(k)
	if g := (rect{x1, y1, x2, y2}); g != a {
		return vh.Sf("image %dx%d: region %v has code %d, which decodes to %v", w, h, a, k, g)
	}
	if b, e := seen[k]; e && b != a {
		return vh.Sf("image %dx%d: regions %v and %v have the same code %d", w, h, a, b, k)
	}
	seen[k] = a
	return ""
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		// the dimensions at start-up
		h.Case(true, vh.Sf("default %dx%d", sys.Width, sys.Height), func() string {
			seen := map[uint64]rect{}
			W, H := sys.Width, sys.Height
			for x1 := 0; x1 < W; x1 += 3 {
				for x2 := x1 + 1; x2 <= W; x2++ {
					for y1 := 0; y1 < H; y1 += 2 {
						for y2 := y1 + 1; y2 <= H; y2 += 3 {
							if e := trip(W, H, rect{x1, y1, x2, y2}, seen); e != "" {
								return e
							}
						}
					}
				}
			}
			return ""
		})
		n := vh.N(9, 13)
		for W := 1; W <= n; W++ {
			for H := 1; H <= n; H++ {
				W, H := W, H
				h.Case(W*H > 1, vh.Sf("exhaustive %dx%d", W, H), func() string {
					size(W, H)
					seen := map[uint64]rect{}
					for x1 := 0; x1 < W; x1++ {
						for x2 := x1 + 1; x2 <= W; x2++ {
							for y1 := 0; y1 < H; y1++ {
								for y2 := y1 + 1; y2 <= H; y2++ {
									if e := trip(W, H, rect{x1, y1, x2, y2}, seen); e != "" {
										return e
									}
								}
							}
						}
					}
					return ""
				})
			}
		}
		r := vh.Rand()
		for i := 0; i < vh.N(400, 4000); i++ {
			lim := []int{20, 300, 5000, 65534}[r.Intn(4)]
			W, H := 1+r.Intn(lim), 1+r.Intn(lim)
			switch r.Intn(6) {
			case 0:
				H = 1
			case 1:
				W = 1
			}
			var as []rect
			for k := 0; k < 40; k++ {
				x1, y1 := r.Intn(W), r.Intn(H)
				if r.Intn(4) == 0 {
					x1 = W - 1
				}
				if r.Intn(4) == 0 {
					y1 = H - 1
				}
				x2, y2 := x1+1+r.Intn(W-x1), y1+1+r.Intn(H-y1)
				if r.Intn(3) == 0 {
					x2 = W
				}
				if r.Intn(3) == 0 {
					y2 = H
				}
				as = append(as, rect{x1, y1, x2, y2})
			}
			h.Case(true, vh.Sf("%dx%d %v", W, H, as), func() string {
				size(W, H)
				seen := map[uint64]rect{}
				for _, a := range as {
					if e := trip(W, H, a, seen); e != "" {
						return e
					}
				}
				return ""
			})
		}
	})
}

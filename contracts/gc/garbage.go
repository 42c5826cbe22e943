package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/arr"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/basic"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/opt"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/par"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/sel"
)

//gocv:harness prop=C12,C15,C11 use=var loop=3 param=t:0..12 bounded="arrays of up to 3 elements"
func HGenGarbage() {
	switch cv.Param("t") {
	case 0:
		garbage(&basic.Scalars{})
	case 1:
		garbage(&basic.Vars{})
	case 2:
		garbage(&basic.Bits{})
	case 3:
		garbage(&basic.Dynamic{})
	case 4:
		garbage(&basic.Named{})
	case 5:
		garbage(&basic.Blobs{})
	case 6:
		garbage(&opt.Conditions{})
	case 7:
		garbage(&opt.Aligned{})
	case 8:
		garbage(&arr.Dyn{})
	case 9:
		garbage(&sel.Selected{})
	case 10:
		garbage(&sel.Any{})
	case 11:
		garbage(&par.Outer2{})
	case 12:
		garbage(&par.Root{})
	}
}

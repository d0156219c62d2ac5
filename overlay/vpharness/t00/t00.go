package t00

import "github.com/si-co/vpir-code/vp"

func VPBasic() {
	a := vp.U32("a")
	b := vp.U32("b")
	x := []uint32{1, 2, 3}
	if a > b {
		x[1] = a - b
	} else {
		x[1] = b - a
	}
	vp.Assert(vp.Implies(a == b, x[1] == 0), "diff")
	vp.Reach("end")
}

func VPBad() {
	a := vp.U32("a")
	b := vp.U32("b")
	x := []uint32{1, 2, 3}
	i := int(a % 5)
	if b == 77 {
		x[i] = 1
	}
	vp.Reach("end")
}

package ua

import (
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:bound every 32-bit status code

func VP_C07_severity() {
	c := StatusCode(vp.U32("code"))
	sev := uint32(c) >> 30
	vp.Assert(c.IsGood() == (sev == 0), "good means severity 00")
	vp.Assert(c.IsUncertain() == (sev == 1), "uncertain means severity 01")
	vp.Assert(c.IsBad() == (sev == 2), "bad means severity 10")
	vp.Assert(c.IsOverflow() == (uint32(c)>>10&3 == 1 && uint32(c)&0x80 != 0), "overflow is info type data value with the overflow bit")
	vp.Assert(c.IsStructureChanged() == (uint32(c)&0x8000 != 0), "structure changed is bit 15")
	vp.Assert(c.IsSemanticsChanged() == (uint32(c)&0x4000 != 0), "semantics changed is bit 14")
	vp.Reach("severity")
}
